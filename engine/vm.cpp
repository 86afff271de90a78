// Symbolic executor for LLVM IR: every feasible path of main() within the harness' bounds is explored,
// every feasibility question and every assertion is decided by the SMT solver.
#include "vm.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
using namespace llvm;

// ---------------------------------------------------------------- options, shared state, statistics
static std::string gOut = ".";
static double gTime = 600; static uint64_t gStepLimit = 200000000; static int gJobs = 8; static unsigned gMaxErr = 30; static bool gVerbose = false;
static unsigned gSamples = 24; static uint64_t gSeed = 1; static uint64_t gRssLimit = 3500ull << 20;
static std::map<std::string, uint64_t> gParams;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double gT0 = now();
struct Shared { int active; int stop; int errors; int samples; uint64_t paths; };
static Shared *SH;
static struct { uint64_t paths = 0, completed = 0, assumed = 0, errs = 0, steps = 0, forks = 0, asserts = 0, assertQ = 0, concretized = 0; } ST;
static std::set<std::string> gIncomplete; // reasons
static std::set<std::string> gCovers;
static pid_t gRoot;
static std::vector<State *> gWork;
static double gLastSplit = 0;

static LLVMContext gCtx;
static std::unique_ptr<llvm::Module> gM;
static const DataLayout *DL;
static std::vector<DFunc *> gFuncs;
static std::unordered_map<const Function *, DFunc *> gFuncOf;
static std::unordered_map<const GlobalVariable *, uint64_t> gGlobalAddr;
static const uint64_t FUNC_BASE = 0x20000000ull, STACK_BASE = 0x40000000ull;

// thrown-free control: result of executing one instruction
enum class R { Next, Jumped, Dead, Retry };

// ---------------------------------------------------------------- objects
static Obj *newObj(uint32_t size, uint8_t kind, uint8_t alloc, bool undef) {
  Obj *o = new Obj(); o->size = size; o->kind = kind; o->alloc = alloc;
  o->data = (uint8_t *)malloc(size ? 2 * (size_t)size : 1);
  if (size) { memset(o->data, 0, size); memset(o->meta(), undef ? 1 : 0, size); }
  return o;
}
static void derefObj(Obj *o) { if (o && --o->rc == 0) { free(o->data); delete[] o->sym; delete o; } }
static Obj *cloneObj(Obj *o) {
  Obj *n = new Obj(*o); n->rc = 1;
  n->data = (uint8_t *)malloc(o->size ? 2 * (size_t)o->size : 1); memcpy(n->data, o->data, 2 * (size_t)o->size);
  if (o->sym) { n->sym = new Expr *[o->size]; memcpy(n->sym, o->sym, sizeof(Expr *) * o->size); }
  return n;
}
static void derefChunk(Chunk *c) { if (--c->rc == 0) { for (Obj *o : c->o) derefObj(o); delete c; } }
static Chunk *wrChunk(State &s, uint32_t i) {
  Chunk *c = s.heap[i];
  if (c->rc > 1) { Chunk *n = new Chunk(*c); n->rc = 1; for (Obj *o : n->o) if (o) ++o->rc; --c->rc; s.heap[i] = n; return n; }
  return c;
}
static uint64_t addHeap(State &s, Obj *o) {
  uint32_t id = s.heapN++;
  if (id / 64 >= s.heap.size()) { Chunk *c = new Chunk(); memset(c->o, 0, sizeof c->o); s.heap.push_back(c); }
  wrChunk(s, id / 64)->o[id % 64] = o;
  return (uint64_t)id << 32;
}
static inline Obj *getObj(State &s, uint32_t id) {
  if (id < s.heapN) return s.heap[id >> 6]->o[id & 63];
  if (id >= STACK_BASE && id - STACK_BASE < s.stack.size()) return s.stack[id - STACK_BASE];
  return nullptr;
}
static inline Obj *getObjW(State &s, uint32_t id) { // private copy
  if (id < s.heapN) {
    Chunk *c = s.heap[id >> 6]; if (c->rc > 1) c = wrChunk(s, id >> 6);
    Obj *&o = c->o[id & 63];
    if (o->rc > 1) { Obj *n = cloneObj(o); --o->rc; o = n; }
    return o;
  }
  Obj *&o = s.stack[id - STACK_BASE];
  if (o->rc > 1) { Obj *n = cloneObj(o); --o->rc; o = n; }
  return o;
}
static State *cloneState(State &s) {
  State *n = new State(s);
  for (Chunk *c : n->heap) ++c->rc;
  for (Obj *o : n->stack) ++o->rc;
  return n;
}
static void freeState(State *s) { for (Chunk *c : s->heap) derefChunk(c); for (Obj *o : s->stack) derefObj(o); delete s; }

static inline V cv(uint64_t c) { return V{c, nullptr}; }
static inline Expr *toE(V v, unsigned w) { return v.e ? v.e : EP.konst(v.c, w); }
static inline V fromE(Expr *e) { return e->k == K::Const ? V{e->v, nullptr} : V{0, e}; }

static V objRead(Obj *o, uint32_t off, unsigned n) {
  uint8_t *m = o->meta() + off;
  bool any = false;
  for (unsigned i = 0; i < n; ++i) any |= m[i] != 0;
  if (!any) { uint64_t v = 0; memcpy(&v, o->data + off, n); return cv(v); }
  Expr *e = nullptr;
  for (unsigned i = n; i-- > 0;) {
    Expr *b = m[i] == 0 ? EP.konst(o->data[off + i], 8) : m[i] == 1 ? EP.undef(8) : o->sym[off + i];
    e = e ? EP.concat(e, b) : b;
  }
  return fromE(e);
}
static void objWrite(Obj *o, uint32_t off, unsigned n, V v) {
  if (!v.e) { memcpy(o->data + off, &v.c, n); memset(o->meta() + off, 0, n); return; }
  Expr *e = v.e;
  if (e->w < 8 * n) e = EP.zext(e, 8 * n);
  for (unsigned i = 0; i < n; ++i) {
    Expr *b = EP.extract(e, 8 * i, 8);
    if (b->k == K::Const) { o->data[off + i] = (uint8_t)b->v; o->meta()[off + i] = 0; }
    else if (b->k == K::Undef) o->meta()[off + i] = 1;
    else {
      if (!o->sym) { o->sym = new Expr *[o->size]; memset(o->sym, 0, sizeof(Expr *) * o->size); }
      o->sym[off + i] = b; o->meta()[off + i] = 2;
    }
  }
}

// ---------------------------------------------------------------- reporting
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static const char *baseName(StringRef p) { auto q = p.rfind('/'); return q == StringRef::npos ? p.data() : p.data() + q + 1; }
static std::string locOf(const Instruction *I, bool chain, std::string *func = nullptr) {
  std::string r;
  if (!I) return "?";
  const DILocation *d = I->getDebugLoc().get();
  if (!d) { if (func) *func = demangle(I->getFunction()->getName().str()); return demangle(I->getFunction()->getName().str()); }
  for (; d; d = d->getInlinedAt()) {
    std::string fn;
    if (auto *sp = d->getScope()->getSubprogram()) fn = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
    if (func && func->empty()) *func = fn;
    r += (r.empty() ? "" : " < ") + fn + " (" + baseName(d->getFilename()) + ":" + std::to_string(d->getLine()) + ")";
    if (!chain) break;
  }
  return r;
}
static const Instruction *curI(State &s) { auto &f = s.frames.back(); return f.f->code[f.pc].I; }
static std::string stackTrace(State &s) {
  std::string r;
  for (size_t i = s.frames.size(); i-- > 0;) {
    auto &f = s.frames[i];
    r += "    " + locOf(f.f->code[f.pc].I, true) + "\n";
  }
  return r;
}
static void writeInputs(FILE *f, State &s, const Model &m) {
  for (auto &in : s.inputs) {
    uint64_t v = in.var->v < m.size() ? m[in.var->v] & maskW(in.var->w) : 0;
    fprintf(f, "%u %llu %s\n", (unsigned)in.var->w, (unsigned long long)v, in.name);
  }
}
static void incomplete(const std::string &why) { if (gIncomplete.insert(why).second && gVerbose) fprintf(stderr, "engine: incomplete: %s\n", why.c_str()); }

static void report(State &s, const std::string &kind, const std::string &msg, const Model &m) {
  ++ST.errs;
  std::string fn; locOf(curI(s), false, &fn);
  std::string sig = kind + "|" + msg + (s.caseId ? "#" + std::to_string(s.caseId) : "");
  if (kind != "assert") { auto p = fn.find('('); sig += "|" + (p == std::string::npos ? fn : fn.substr(0, p)); }
  uint64_t h = 1469598103934665603ull; for (char c : sig) h = (h ^ (unsigned char)c) * 1099511628211ull;
  char name[64]; snprintf(name, sizeof name, "/err_%016llx", (unsigned long long)h);
  std::string base = gOut + name;
  int fd = open((base + ".txt").c_str(), O_CREAT | O_EXCL | O_WRONLY, 0644);
  if (fd < 0) return;
  FILE *f = fdopen(fd, "w");
  fprintf(f, "%s\n%s\n%s\n%llu\n%s", kind.c_str(), sig.c_str(), msg.c_str(), (unsigned long long)s.caseId, stackTrace(s).c_str());
  fclose(f);
  f = fopen((base + ".inputs").c_str(), "w"); writeInputs(f, s, m); fclose(f);
  if (gVerbose) fprintf(stderr, "engine: ERROR %s\n%s", sig.c_str(), stackTrace(s).c_str());
  if (__sync_add_and_fetch(&SH->errors, 1) >= (int)gMaxErr) { incomplete("error limit"); SH->stop = 1; }
}

// ---------------------------------------------------------------- constraints
static void addCons(State &s, Expr *e) {
  if (e->k == K::Const) return;
  if (e->k == K::And && e->w == 1) { addCons(s, e->a); addCons(s, e->b); return; }
  if (e->k == K::Not && e->a->k == K::Or) { addCons(s, EP.notE(e->a->a)); addCons(s, EP.notE(e->a->b)); return; }
  Expr *v = nullptr;
  if (e->k == K::Eq && e->b->k == K::Const && e->a->k == K::Var) v = e->a;
  else if (e->k == K::Var) v = e;
  else if (e->k == K::Not && e->a->k == K::Var) v = e->a;
  if (v) { if (s.fixed.size() <= v->v) s.fixed.resize(EP.numVars(), 0); s.fixed[v->v] = 1; }
  for (Expr *c : s.cons) if (c == e) return;
  s.cons.push_back(e);
}
static inline Expr *sub(State &s, Expr *e) { return s.fixed.empty() ? e : EP.subst(e, s.fixed, s.model); }
static Sat query(State &s, Expr *c, Model &out) {
  if (SH->stop) return Sat::Unknown;
  if (now() - gT0 > gTime) { incomplete("time budget"); SH->stop = 1; return Sat::Unknown; }
  static const char *slow = getenv("VS_SLOW"); double q0 = slow ? now() : 0;
  Sat r = satisfiable(s.cons, c, s.model, out);
  if (slow && now() - q0 > atof(slow)) fprintf(stderr, "slow query %.2fs, %zu constraints\n%s\n%s", now() - q0, s.cons.size(), EP.str(c, 12).substr(0, 400).c_str(), stackTrace(s).c_str()), writeInputs(stderr, s, s.model);
  if (r == Sat::Unknown) incomplete("solver gave no answer");
  return r;
}
// false: an uninitialised value influences e on this path (reported)
static bool defined(State &s, Expr *&e, const char *what) {
  if (!e->undef) return true;
  Expr *z = EP.fillUndef(e, 0), *v = EP.fillUndef(e, 2);
  Expr *d = EP.notE(EP.eq(z, v)); Model m;
  if (s.model.size() < EP.numVars()) s.model.resize(EP.numVars(), 0);
  Sat r = query(s, d, m);
  if (r == Sat::Yes) { report(s, "uninitialised", std::string("uninitialised value decides ") + what, m); return false; }
  if (r == Sat::Unknown) return false;
  e = z; return true;
}

static State *forkState(State &s) { ++ST.forks; State *n = cloneState(s); n->forks = ++s.forks; return n; }

// concretise v: on return true v is concrete; otherwise the state is dead. Other values are forked off and re-execute the instruction.
static bool concretize(State &s, V &v, const char *what) {
  if (!v.e) return true;
  Expr *e = sub(s, v.e);
  if (!defined(s, e, what)) return false;
  if (e->k == K::Const) { v = cv(e->v); return true; }
  ++ST.concretized;
  uint64_t val = EP.eval(e, s.model);
  Expr *eq = EP.eq(e, EP.konst(val, e->w));
  Model m; Sat r = query(s, EP.notE(eq), m);
  if (r == Sat::Unknown) return false;
  if (r == Sat::Yes) {
    unsigned excluded = 0; if (eq->k == K::Eq) for (Expr *c : s.cons) if (c->k == K::Not && c->a->k == K::Eq && c->a->a == eq->a) ++excluded;
    if (excluded >= 8 && eq->b->k == K::Const) { // many values: smaller and larger ones go different ways, so that every path carries a logarithmic number of bounds
      Expr *x = eq->a, *side[2] = {EP.bin(K::Ult, x, eq->b), EP.bin(K::Ult, eq->b, x)};
      const bool up = EP.eval(x, m) > eq->b->v; State *o = forkState(s); o->model = m; addCons(*o, side[up]); gWork.push_back(o);
      Model m2; r = query(s, side[!up], m2); if (r == Sat::Unknown) return false;
      if (r == Sat::Yes) { State *p = forkState(s); p->model = m2; addCons(*p, side[!up]); gWork.push_back(p); }
    } else { State *o = forkState(s); o->model = m; addCons(*o, EP.notE(eq)); gWork.push_back(o); }
    addCons(s, eq);
  }
  v = cv(val); return true;
}
// decide a 1-bit condition; returns 1 true, 0 false, -1 dead; *other set when both sides are possible (already constrained)
static int decide(State &s, V v, State **other, const char *what) {
  *other = nullptr;
  if (!v.e) return (int)(v.c & 1);
  Expr *e = sub(s, v.e);
  if (!defined(s, e, what)) return -1;
  if (e->k == K::Const) return (int)e->v;
  bool t = EP.eval(e, s.model);
  Expr *mine = t ? e : EP.notE(e), *opp = EP.notE(mine);
  Model m; Sat r = query(s, opp, m);
  if (r == Sat::Unknown) return -1;
  if (r == Sat::Yes) { *other = forkState(s); (*other)->model = m; addCons(**other, opp); addCons(s, mine); }
  return t;
}

// ---------------------------------------------------------------- memory access
static bool memError(State &s, const char *kind, const Model &m, const char *what) { report(s, "memory", std::string(kind) + " " + what, m); return false; }
// checks a concrete address; returns object or null (reported)
static Obj *check(State &s, uint64_t addr, uint64_t n, bool write, const char *what) {
  uint32_t id = addr >> 32, off = (uint32_t)addr;
  Obj *o = getObj(s, id);
  if (!o) { memError(s, id == 0 ? "null pointer" : id >= STACK_BASE && id < STACK_BASE + 0x1000000 ? "dead stack" : "wild pointer", s.model, what); return nullptr; }
  if (o->freed) { memError(s, "use after free", s.model, what); return nullptr; }
  if (n > o->size || off > o->size - n) { memError(s, "out of bounds", s.model, what); return nullptr; }
  if (write && o->kind == OK_Const) { memError(s, "write to constant", s.model, what); return nullptr; }
  return o;
}
// Make the address concrete up to its object. R::Next: `obj`/`off` valid (off concrete if !offE). R::Dead otherwise.
static R resolve(State &s, V a, unsigned n, bool write, const char *what, Obj *&o, uint32_t &id, uint32_t &off, Expr *&offE) {
  offE = nullptr;
  if (a.e) {
    Expr *e = sub(s, a.e);
    if (!defined(s, e, "an address")) return R::Dead;
    if (e->k == K::Const) a = cv(e->v);
    else {
      uint64_t val = EP.eval(e, s.model);
      o = check(s, val, n, write, what);
      if (!o) return R::Dead;
      id = val >> 32; uint64_t base = (uint64_t)id << 32;
      Expr *rel = EP.bin(K::Sub, e, EP.konst(base, 64));
      Expr *inb = EP.bin(K::Ule, rel, EP.konst(o->size - n, 64));
      Model m; Sat r = query(s, EP.notE(inb), m);
      if (r == Sat::Unknown) return R::Dead;
      if (r == Sat::Yes) { State *x = forkState(s); x->model = m; addCons(*x, EP.notE(inb)); gWork.push_back(x); addCons(s, inb); }
      offE = sub(s, rel);
      if (offE->k == K::Const) { off = (uint32_t)offE->v; offE = nullptr; }
      return R::Next;
    }
  }
  o = check(s, a.c, n, write, what);
  if (!o) return R::Dead;
  id = a.c >> 32; off = (uint32_t)a.c;
  return R::Next;
}
static void candidates(Expr *off, uint64_t maxOff, uint64_t &start, uint64_t &stride, uint64_t &end) {
  uint64_t k = 0; Expr *x = off;
  if (x->k == K::Add && x->b->k == K::Const) { k = x->b->v; x = x->a; }
  unsigned t = std::min(EP.tz(x), 20u);
  stride = 1ull << t;
  start = k & (stride - 1);
  end = maxOff;
  if ((int64_t)k >= 0) { if (k > start && k <= maxOff) { uint64_t um = EP.umax(x); if (um <= maxOff) { start = k; end = std::min(maxOff, um + k); } } else { uint64_t um = EP.umax(x); if (um < maxOff && um + k < maxOff) end = um + k; } }
}
static R loadMem(State &s, V a, unsigned n, V &out) {
  Obj *o; uint32_t id, off; Expr *oe;
  if (R r = resolve(s, a, n, false, "read", o, id, off, oe); r != R::Next) return r;
  if (!oe) { out = objRead(o, off, n); return R::Next; }
  uint64_t st, sd, en; candidates(oe, o->size - n, st, sd, en);
  uint64_t cnt = en < st ? 0 : (en - st) / sd + 1;
  // tables of known bytes become one term; anything else is split per address
  bool known = cnt > 0 && cnt <= 2048;
  if (known && cnt > 2) for (uint64_t c = st; known && c <= en; c += sd) for (unsigned i = 0; i < n; ++i) if (o->meta()[c + i]) { known = false; break; }
  if (!known) { V v{0, oe}; if (!concretize(s, v, "an address")) return R::Dead; if (v.c > o->size - n) { memError(s, "out of bounds", s.model, "read"); return R::Dead; } out = objRead(getObj(s, id), (uint32_t)v.c, n); return R::Next; }
  Expr *e = nullptr;
  for (uint64_t c = st; c <= en; c += sd) {
    Expr *v = toE(objRead(o, (uint32_t)c, n), 8 * n);
    e = e ? EP.ite(EP.eq(oe, EP.konst(c, 64)), v, e) : v;
  }
  out = fromE(e); return R::Next;
}
static R storeMem(State &s, V a, unsigned n, V v) {
  Obj *o; uint32_t id, off; Expr *oe;
  if (R r = resolve(s, a, n, true, "write", o, id, off, oe); r != R::Next) return r;
  if (!oe) { objWrite(getObjW(s, id), off, n, v); return R::Next; }
  uint64_t st, sd, en; candidates(oe, o->size - n, st, sd, en);
  uint64_t cnt = en < st ? 0 : (en - st) / sd + 1;
  if (cnt == 0 || cnt > 2 || sd < n) { V x{0, oe}; if (!concretize(s, x, "an address")) return R::Dead; objWrite(getObjW(s, id), (uint32_t)x.c, n, v); return R::Next; }
  o = getObjW(s, id);
  Expr *ve = toE(v, 8 * n); if (ve->w < 8 * n) ve = EP.zext(ve, 8 * n);
  for (uint64_t c = st; c <= en; c += sd) objWrite(o, (uint32_t)c, n, fromE(EP.ite(EP.eq(oe, EP.konst(c, 64)), ve, toE(objRead(o, (uint32_t)c, n), 8 * n))));
  return R::Next;
}
static R copyMem(State &s, V d, V sr, V len) {
  if (!concretize(s, len, "a copy length")) return R::Dead;
  if (len.c == 0) return R::Next;
  if (!concretize(s, d, "an address") || !concretize(s, sr, "an address")) return R::Dead;
  if (len.c > 0xffffffffu) { memError(s, "out of bounds", s.model, "copy"); return R::Dead; }
  uint32_t n = (uint32_t)len.c;
  Obj *so = check(s, sr.c, n, false, "read"); if (!so) return R::Dead;
  if (!check(s, d.c, n, true, "write")) return R::Dead;
  Obj *dobj = getObjW(s, d.c >> 32); so = getObj(s, sr.c >> 32);
  uint32_t so_ = (uint32_t)sr.c, do_ = (uint32_t)d.c;
  memmove(dobj->data + do_, so->data + so_, n);
  memmove(dobj->meta() + do_, so->meta() + so_, n);
  if (so->sym) {
    bool any = memchr(dobj->meta() + do_, 2, n) != nullptr;
    if (any) { if (!dobj->sym) { dobj->sym = new Expr *[dobj->size]; memset(dobj->sym, 0, sizeof(Expr *) * dobj->size); } memmove(dobj->sym + do_, so->sym + so_, n * sizeof(Expr *)); }
  }
  return R::Next;
}
static R setMem(State &s, V d, V v, V len) {
  if (!concretize(s, len, "a fill length")) return R::Dead;
  if (len.c == 0) return R::Next;
  if (!concretize(s, d, "an address")) return R::Dead;
  if (len.c > 0xffffffffu) { memError(s, "out of bounds", s.model, "fill"); return R::Dead; }
  if (!check(s, d.c, len.c, true, "write")) return R::Dead;
  Obj *o = getObjW(s, d.c >> 32);
  if (!v.e) { memset(o->data + (uint32_t)d.c, (int)v.c, len.c); memset(o->meta() + (uint32_t)d.c, 0, len.c); }
  else for (uint64_t i = 0; i < len.c; ++i) objWrite(o, (uint32_t)(d.c + i), 1, v);
  return R::Next;
}
static R readCStr(State &s, V p, std::string &out, uint64_t limit = 65536) {
  if (!concretize(s, p, "an address")) return R::Dead;
  for (uint64_t i = 0; i < limit; ++i) {
    if (!check(s, p.c + i, 1, false, "read")) return R::Dead;
    V b = objRead(getObj(s, (p.c + i) >> 32), (uint32_t)(p.c + i), 1);
    if (!concretize(s, b, "a C string")) return R::Dead;
    if (!b.c) return R::Next;
    out += (char)b.c;
  }
  return R::Next;
}

// ---------------------------------------------------------------- decoding
static unsigned leaves(Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *st = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type *e : st->elements()) n += leaves(e); return n; }
  if (auto *at = dyn_cast<ArrayType>(t)) return (unsigned)at->getNumElements() * leaves(at->getElementType());
  if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * leaves(vt->getElementType());
  return 1;
}
static void leafTypes(Type *t, uint64_t off, std::vector<std::pair<Type *, uint64_t>> &out) {
  if (t->isVoidTy()) return;
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) leafTypes(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) leafTypes(at->getElementType(), off + i * sz, out); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); ++i) leafTypes(vt->getElementType(), off + i * sz, out); return; }
  out.push_back({t, off});
}
static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {
  unsigned r = 0;
  for (unsigned i : idx) {
    if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) r += leaves(st->getElementType(k)); t = st->getElementType(i); }
    else { auto *at = cast<ArrayType>(t); r += i * leaves(at->getElementType()); t = at->getElementType(); }
  }
  return r;
}
static unsigned widthOf(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isHalfTy()) return 16;
  return 0;
}
static DFunc *funcOf(const Function *F) {
  auto it = gFuncOf.find(F); if (it != gFuncOf.end()) return it->second;
  DFunc *d = new DFunc(); d->F = const_cast<Function *>(F); d->name = F->getName().str(); d->index = (uint32_t)gFuncs.size(); d->vararg = F->isVarArg();
  gFuncs.push_back(d); gFuncOf[F] = d; return d;
}
static uint64_t funcAddr(const Function *F) { return (FUNC_BASE + funcOf(F)->index) << 32; }

[[noreturn]] static void fatal(const char *fmt, ...) { va_list ap; va_start(ap, fmt); fprintf(stderr, "engine: fatal: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap); exit(3); }

static State *gInit = nullptr;
static uint64_t globalAddr(const GlobalVariable *G);
static void constVals(const Constant *C, std::vector<V> &out) {
  Type *t = C->getType();
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) fatal("wide constant"); } out.push_back(cv(ci->getValue().getLimitedValue())); return; }
  if (auto *cf = dyn_cast<ConstantFP>(C)) { out.push_back(cv(cf->getValueAPF().bitcastToAPInt().getLimitedValue())); return; }
  if (isa<ConstantPointerNull>(C)) { out.push_back(cv(0)); return; }
  if (auto *g = dyn_cast<GlobalVariable>(C)) { out.push_back(cv(globalAddr(g))); return; }
  if (auto *f = dyn_cast<Function>(C)) { out.push_back(cv(funcAddr(f))); return; }
  if (auto *ga = dyn_cast<GlobalAlias>(C)) { constVals(ga->getAliasee(), out); return; }
  if (isa<UndefValue>(C)) { std::vector<std::pair<Type *, uint64_t>> l; leafTypes(t, 0, l); for (auto &p : l) out.push_back(V{0, EP.undef(widthOf(p.first))}); return; }
  if (isa<ConstantAggregateZero>(C)) { for (unsigned i = 0, n = leaves(t); i < n; ++i) out.push_back(cv(0)); return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(C)) { for (auto &o : ca->operands()) constVals(cast<Constant>(o), out); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) constVals(cd->getElementAsConstant(i), out); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    std::vector<V> a;
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      constVals(ce->getOperand(0), a); APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("constant gep");
      out.push_back(cv(a[0].c + off.getSExtValue())); return; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: constVals(ce->getOperand(0), a); out.push_back(cv(a[0].c & maskW(widthOf(t)))); return;
    case Instruction::Trunc: constVals(ce->getOperand(0), a); out.push_back(cv(a[0].c & maskW(widthOf(t)))); return;
    case Instruction::Add: case Instruction::Sub: { std::vector<V> b; constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); out.push_back(cv((ce->getOpcode() == Instruction::Add ? a[0].c + b[0].c : a[0].c - b[0].c) & maskW(widthOf(t)))); return; }
    case Instruction::ICmp: { std::vector<V> b; constVals(ce->getOperand(0), a); constVals(ce->getOperand(1), b); auto p = ce->getPredicate(); if (p == CmpInst::ICMP_EQ) out.push_back(cv(a[0].c == b[0].c)); else if (p == CmpInst::ICMP_NE) out.push_back(cv(a[0].c != b[0].c)); else fatal("constant icmp"); return; }
    default: fatal("constant expression %s", ce->getOpcodeName());
    }
  }
  fatal("unhandled constant");
}
static std::vector<const GlobalVariable *> gPendingInit;
static uint64_t globalAddr(const GlobalVariable *G) {
  auto it = gGlobalAddr.find(G); if (it != gGlobalAddr.end()) return it->second;
  uint64_t sz = G->getValueType()->isSized() ? DL->getTypeAllocSize(G->getValueType()).getFixedValue() : 64;
  if (!G->hasInitializer()) sz = std::max<uint64_t>(sz, 64);
  Obj *o = newObj((uint32_t)sz, OK_Global, AK_None, false);
  uint64_t a = addHeap(*gInit, o);
  gGlobalAddr[G] = a; gPendingInit.push_back(G);
  return a;
}
static void initGlobals() {
  for (auto &G : gM->globals()) if (!G.getName().starts_with("llvm.")) globalAddr(&G);
  while (!gPendingInit.empty()) {
    auto *G = gPendingInit.back(); gPendingInit.pop_back();
    if (!G->hasInitializer()) continue;
    std::vector<V> vs; constVals(G->getInitializer(), vs);
    std::vector<std::pair<Type *, uint64_t>> l; leafTypes(G->getValueType(), 0, l);
    Obj *o = getObj(*gInit, gGlobalAddr[G] >> 32);
    for (size_t i = 0; i < l.size(); ++i) objWrite(o, (uint32_t)l[i].second, (unsigned)DL->getTypeStoreSize(l[i].first), vs[i].e ? cv(0) : vs[i]);
    if (G->isConstant()) o->kind = OK_Const;
  }
}

// external functions handled by the engine
enum Ext { X_None = -1, X_SymBits, X_SymChoose, X_SymAssume, X_SymAssert, X_SymCover, X_SymObserve, X_SymConcretize, X_SymParam, X_SymCase, X_SymFail,
  X_Malloc, X_Calloc, X_Realloc, X_Free, X_New, X_NewArr, X_Del, X_DelArr, X_Ignore0, X_Abort, X_PureVirtual, X_Snprintf, X_Exit, X_LiveHeap, X_Unknown };
static int extOf(const std::string &n) {
  static const std::map<std::string, int> m = {
    {"sym_bits", X_SymBits}, {"sym_choose", X_SymChoose}, {"sym_assume_", X_SymAssume}, {"sym_assert_", X_SymAssert}, {"sym_cover", X_SymCover}, {"sym_observe", X_SymObserve}, {"sym_concretize", X_SymConcretize}, {"sym_param", X_SymParam}, {"sym_case", X_SymCase}, {"sym_live_heap", X_LiveHeap},
    {"malloc", X_Malloc}, {"calloc", X_Calloc}, {"realloc", X_Realloc}, {"free", X_Free}, {"_Znwm", X_New}, {"_Znam", X_NewArr}, {"_ZdlPv", X_Del}, {"_ZdlPvm", X_Del}, {"_ZdaPv", X_DelArr}, {"_ZdaPvm", X_DelArr},
    {"_ZnwmRKSt9nothrow_t", X_New}, {"_ZnamRKSt9nothrow_t", X_NewArr}, {"_ZnwmSt11align_val_t", X_New}, {"_ZdlPvSt11align_val_t", X_Del}, {"_ZdlPvmSt11align_val_t", X_Del},
    {"printf", X_Ignore0}, {"vprintf", X_Ignore0}, {"fprintf", X_Ignore0}, {"vfprintf", X_Ignore0}, {"puts", X_Ignore0}, {"putchar", X_Ignore0}, {"fputs", X_Ignore0}, {"fputc", X_Ignore0}, {"fflush", X_Ignore0}, {"fwrite", X_Ignore0}, {"__cxa_atexit", X_Ignore0},
    {"abort", X_Abort}, {"__assert_fail", X_Abort}, {"_ZSt9terminatev", X_Abort}, {"exit", X_Exit}, {"_exit", X_Exit}, {"__cxa_pure_virtual", X_PureVirtual}, {"snprintf", X_Snprintf}};
  auto it = m.find(n); return it == m.end() ? X_Unknown : it->second;
}

struct Decoder {
  DFunc &d; std::unordered_map<const Value *, int32_t> reg; std::unordered_map<const Value *, std::vector<int32_t>> cidx; std::unordered_map<const BasicBlock *, uint32_t> bbpc;
  std::vector<std::pair<const BasicBlock *, const BasicBlock *>> edgeBB;
  explicit Decoder(DFunc &f) : d(f) {}
  int32_t op(const Value *v, unsigned leaf = 0) {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto &ci = cidx[v];
      if (ci.empty()) { std::vector<V> vs; constVals(c, vs); for (V x : vs) { ci.push_back(~(int32_t)d.consts.size()); d.consts.push_back(x); } }
      return ci[leaf];
    }
    auto it = reg.find(v);
    if (it == reg.end()) fatal("no register in %s", d.name.c_str());
    return it->second + (int32_t)leaf;
  }
  int32_t konst(uint64_t c) { d.consts.push_back(cv(c)); return ~(int32_t)(d.consts.size() - 1); }
  uint32_t edge(const BasicBlock *from, const BasicBlock *to) { edgeBB.push_back({from, to}); d.edges.push_back({}); return (uint32_t)d.edges.size() - 1; }
  void emit(DInst i, const Instruction *I) { i.I = I; d.code.push_back(i); }
  void unsupported(const Instruction *I, const char *why) { DInst x; x.op = O_Unsupported; x.x = strdup(why); emit(x, I); }
  void gep(const GetElementPtrInst *G) {
    int64_t off = 0; std::vector<GepTerm> terms;
    for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
      const Value *idx = gi.getOperand();
      if (StructType *st = gi.getStructTypeOrNull()) { off += (int64_t)DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()); continue; }
      int64_t sc = (int64_t)DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
      if (auto *ci = dyn_cast<ConstantInt>(idx)) { off += sc * ci->getSExtValue(); continue; }
      terms.push_back({op(idx), (uint8_t)widthOf(idx->getType()), sc});
    }
    DInst x; x.dst = reg[G]; x.a = op(G->getPointerOperand()); x.imm = off;
    if (terms.empty()) x.op = O_GepC;
    else if (terms.size() == 1) { x.op = O_Gep1; x.b = terms[0].idx; x.w = terms[0].w; x.x = (void *)terms[0].scale; }
    else { x.op = O_Gep; x.x = new std::vector<GepTerm>(terms); }
    emit(x, G);
  }
  void inst(const Instruction *I);
  void run() {
    const Function *F = d.F; uint32_t n = 0;
    for (auto &A : F->args()) { reg[&A] = (int32_t)n; unsigned k = leaves(A.getType()); n += k; }
    d.nargs = n;
    for (auto &B : *F) for (auto &I : B) { unsigned k = leaves(I.getType()); if (k) { reg[&I] = (int32_t)n; n += k; } }
    d.nregs = n;
    for (auto &B : *F) { bbpc[&B] = (uint32_t)d.code.size(); for (auto &I : B) inst(&I); }
    for (size_t i = 0; i < edgeBB.size(); ++i) {
      Edge &e = d.edges[i]; e.target = bbpc[edgeBB[i].second];
      for (auto &P : edgeBB[i].second->phis()) { const Value *in = P.getIncomingValueForBlock(edgeBB[i].first); for (unsigned l = 0, k = leaves(P.getType()); l < k; ++l) e.copies.push_back({reg[&P] + (int32_t)l, op(in, l)}); }
    }
    d.decoded = true;
  }
};
void Decoder::inst(const Instruction *I) {
  DInst x; if (leaves(I->getType())) x.dst = reg[I];
  x.w = (uint8_t)widthOf(I->getType());
  if (isa<DbgInfoIntrinsic>(I) || isa<PHINode>(I)) return;
  if (I->getType()->isVectorTy() || (I->getNumOperands() && I->getOperand(0)->getType()->isVectorTy())) { unsupported(I, "vector instruction"); return; }
  if (I->getType()->isIntegerTy() && I->getType()->getIntegerBitWidth() > 64) { unsupported(I, "wide integer"); return; }
  switch (I->getOpcode()) {
#define BIN(N) case Instruction::N: x.op = O_##N; x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); emit(x, I); return;
  BIN(Add) BIN(Sub) BIN(Mul) BIN(UDiv) BIN(SDiv) BIN(URem) BIN(SRem) BIN(And) BIN(Or) BIN(Xor) BIN(Shl) BIN(LShr) BIN(AShr)
  case Instruction::ICmp: x.op = O_ICmp; x.p = (uint8_t)cast<ICmpInst>(I)->getPredicate(); x.w2 = (uint8_t)widthOf(I->getOperand(0)->getType()); x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); emit(x, I); return;
  case Instruction::Trunc: x.op = O_Trunc; x.w2 = (uint8_t)widthOf(I->getOperand(0)->getType()); if (!x.w2 || I->getOperand(0)->getType()->getPrimitiveSizeInBits() > 64) { unsupported(I, "wide integer"); return; } x.a = op(I->getOperand(0)); emit(x, I); return;
  case Instruction::ZExt: x.op = O_ZExt; x.w2 = (uint8_t)widthOf(I->getOperand(0)->getType()); x.a = op(I->getOperand(0)); emit(x, I); return;
  case Instruction::SExt: x.op = O_SExt; x.w2 = (uint8_t)widthOf(I->getOperand(0)->getType()); x.a = op(I->getOperand(0)); emit(x, I); return;
  case Instruction::PtrToInt: x.op = O_Trunc; x.w2 = 64; x.a = op(I->getOperand(0)); emit(x, I); return;
  case Instruction::IntToPtr: x.op = O_ZExt; x.w2 = (uint8_t)widthOf(I->getOperand(0)->getType()); x.a = op(I->getOperand(0)); emit(x, I); return;
  case Instruction::BitCast: case Instruction::Freeze:
    for (unsigned l = 0, k = leaves(I->getType()); l < k; ++l) { DInst y = x; y.op = O_Mov; y.dst = x.dst + (int32_t)l; y.a = op(I->getOperand(0), l); emit(y, I); }
    return;
  case Instruction::Select: {
    std::vector<std::pair<Type *, uint64_t>> lt; leafTypes(I->getType(), 0, lt);
    for (unsigned l = 0; l < lt.size(); ++l) { DInst y = x; y.op = O_Select; y.w = (uint8_t)widthOf(lt[l].first); y.dst = x.dst + (int32_t)l; y.a = op(I->getOperand(0)); y.b = op(I->getOperand(1), l); y.c = op(I->getOperand(2), l); emit(y, I); }
    return; }
  case Instruction::GetElementPtr: gep(cast<GetElementPtrInst>(I)); return;
  case Instruction::Load: {
    std::vector<std::pair<Type *, uint64_t>> lt; leafTypes(I->getType(), 0, lt);
    for (unsigned l = 0; l < lt.size(); ++l) { DInst y = x; y.op = O_Load; y.dst = x.dst + (int32_t)l; y.w = (uint8_t)widthOf(lt[l].first); y.n = (uint32_t)DL->getTypeStoreSize(lt[l].first); y.imm = (int64_t)lt[l].second; y.a = op(cast<LoadInst>(I)->getPointerOperand()); emit(y, I); }
    return; }
  case Instruction::Store: {
    auto *S = cast<StoreInst>(I); if (S->getValueOperand()->getType()->isVectorTy()) { unsupported(I, "vector store"); return; }
    std::vector<std::pair<Type *, uint64_t>> lt; leafTypes(S->getValueOperand()->getType(), 0, lt);
    for (unsigned l = 0; l < lt.size(); ++l) { DInst y = x; y.op = O_Store; y.w = (uint8_t)widthOf(lt[l].first); if (!y.w) { unsupported(I, "store type"); return; } y.n = (uint32_t)DL->getTypeStoreSize(lt[l].first); y.imm = (int64_t)lt[l].second; y.a = op(S->getPointerOperand()); y.b = op(S->getValueOperand(), l); emit(y, I); }
    return; }
  case Instruction::Alloca: { auto *A = cast<AllocaInst>(I); x.op = O_Alloca; x.imm = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue(); x.a = op(A->getArraySize()); emit(x, I); return; }
  case Instruction::Br: {
    auto *B = cast<BranchInst>(I);
    if (B->isUnconditional()) { x.op = O_Br; x.a = (int32_t)edge(I->getParent(), B->getSuccessor(0)); }
    else { x.op = O_CondBr; x.a = op(B->getCondition()); x.b = (int32_t)edge(I->getParent(), B->getSuccessor(0)); x.c = (int32_t)edge(I->getParent(), B->getSuccessor(1)); }
    emit(x, I); return; }
  case Instruction::Switch: {
    auto *S = cast<SwitchInst>(I); auto *si = new SwitchInfo();
    std::map<const BasicBlock *, int> eb; // one edge per destination
    auto ed = [&](const BasicBlock *b) { auto it = eb.find(b); if (it != eb.end()) return it->second; int e = (int)edge(I->getParent(), b); eb[b] = e; return e; };
    si->def = ed(S->getDefaultDest());
    for (auto &c : S->cases()) { uint64_t v = c.getCaseValue()->getZExtValue(); int e = ed(c.getCaseSuccessor()); si->cases.push_back({v, e}); si->lut[v] = e; }
    x.op = O_Switch; x.a = op(S->getCondition()); x.w = (uint8_t)widthOf(S->getCondition()->getType()); x.x = si; emit(x, I); return; }
  case Instruction::Ret: {
    x.op = O_Ret; auto *v = cast<ReturnInst>(I)->getReturnValue(); x.n = v ? leaves(v->getType()) : 0;
    if (v) { auto *ops = new std::vector<int32_t>(); for (unsigned l = 0; l < x.n; ++l) ops->push_back(op(v, l)); x.x = ops; }
    emit(x, I); return; }
  case Instruction::Unreachable: x.op = O_Unreachable; emit(x, I); return;
  case Instruction::ExtractValue: {
    auto *E = cast<ExtractValueInst>(I); unsigned b = leafIndex(E->getAggregateOperand()->getType(), E->getIndices());
    for (unsigned l = 0, k = leaves(I->getType()); l < k; ++l) { DInst y = x; y.op = O_Mov; y.dst = x.dst + (int32_t)l; y.a = op(E->getAggregateOperand(), b + l); emit(y, I); }
    return; }
  case Instruction::InsertValue: {
    auto *E = cast<InsertValueInst>(I); unsigned b = leafIndex(I->getType(), E->getIndices()), n = leaves(E->getInsertedValueOperand()->getType());
    for (unsigned l = 0, k = leaves(I->getType()); l < k; ++l) { DInst y = x; y.op = O_Mov; y.dst = x.dst + (int32_t)l; y.a = l >= b && l < b + n ? op(E->getInsertedValueOperand(), l - b) : op(E->getAggregateOperand(), l); emit(y, I); }
    return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: x.op = O_FBin; x.p = (uint8_t)(I->getOpcode() == Instruction::FAdd ? 0 : I->getOpcode() == Instruction::FSub ? 1 : I->getOpcode() == Instruction::FMul ? 2 : 3); x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); emit(x, I); return;
  case Instruction::FCmp: x.op = O_FCmp; x.p = (uint8_t)cast<FCmpInst>(I)->getPredicate(); x.w2 = (uint8_t)widthOf(I->getOperand(0)->getType()); x.a = op(I->getOperand(0)); x.b = op(I->getOperand(1)); emit(x, I); return;
  case Instruction::FNeg: x.op = O_FNeg; x.a = op(I->getOperand(0)); emit(x, I); return;
  case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
    x.op = O_FCast; x.imm = I->getOpcode(); x.w2 = (uint8_t)widthOf(I->getOperand(0)->getType()); x.a = op(I->getOperand(0)); emit(x, I); return;
  case Instruction::Fence: return;
  case Instruction::Call: {
    auto *C = cast<CallInst>(I);
    if (C->isInlineAsm()) { unsupported(I, "inline assembly"); return; }
    auto *ci = new CallInfo();
    const Value *cal = C->getCalledOperand()->stripPointerCasts();
    if (auto *ga = dyn_cast<GlobalAlias>(cal)) cal = ga->getAliasee()->stripPointerCasts();
    if (auto *F = dyn_cast<Function>(cal)) {
      ci->callee = funcOf(F);
      if (F->isIntrinsic()) {
        switch (F->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
        case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::stacksave: case Intrinsic::stackrestore: delete ci; return;
        default: break;
        }
      }
    } else ci->fp = op(C->getCalledOperand());
    for (auto &A : C->args()) {
      if (A->getType()->isMetadataTy()) continue;
      std::vector<std::pair<Type *, uint64_t>> lt; leafTypes(A->getType(), 0, lt);
      if (C->isByValArgument(A.getOperandNo())) { // the callee works on a copy
        DInst y{}; y.op = O_ByVal; y.dst = (int32_t)d.nregs++; y.imm = (int64_t)DL->getTypeAllocSize(C->getParamByValType(A.getOperandNo())).getFixedValue(); y.a = op(A); emit(y, I);
        ci->args.push_back(y.dst); ci->argw.push_back(64); continue;
      }
      for (unsigned l = 0; l < lt.size(); ++l) { ci->args.push_back(op(A, l)); ci->argw.push_back((uint8_t)(lt[l].first->isFloatingPointTy() ? 128 + widthOf(lt[l].first) / 8 : widthOf(lt[l].first))); }
    }
    ci->ndst = (int32_t)leaves(I->getType());
    x.op = O_Call; x.x = ci; emit(x, I); return; }
  default: unsupported(I, I->getOpcodeName()); return;
  }
}

// ---------------------------------------------------------------- execution
static DFunc *gMain; static std::vector<DFunc *> gCtors;
static void pushFrame(State &s, DFunc *f) {
  if (!f->decoded) Decoder(*f).run();
  f->executed = true;
  Frame fr{f, 0, (uint32_t)s.regs.size(), (uint32_t)s.stack.size()};
  s.regs.resize(s.regs.size() + f->nregs, cv(0));
  s.frames.push_back(fr);
}
static double bitsToD(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t dToBits(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t v; memcpy(&v, &d, 8); return v; }

struct VM {
  State &s;
  Frame *fr; V *r; const V *k;
  explicit VM(State &st) : s(st) { sync(); }
  void sync() { fr = &s.frames.back(); r = s.regs.data() + fr->base; k = fr->f->consts.data(); }
  inline V g(int32_t i) const { return i >= 0 ? r[i] : k[~i]; }
  static void edge(State &st, uint32_t e) {
    Frame &f = st.frames.back(); Edge &ed = f.f->edges[e]; V *rr = st.regs.data() + f.base; const V *kk = f.f->consts.data();
    auto val = [&](int32_t i) { return i >= 0 ? rr[i] : kk[~i]; };
    size_t n = ed.copies.size();
    if (n == 1) rr[ed.copies[0].first] = val(ed.copies[0].second);
    else if (n) { V tmp[64]; std::vector<V> big; V *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; ++i) t[i] = val(ed.copies[i].second); for (size_t i = 0; i < n; ++i) rr[ed.copies[i].first] = t[i]; }
    f.pc = ed.target;
  }
  R bin(const DInst &d);
  R icmp(const DInst &d);
  R call(const DInst &d);
  R ext(int x, CallInfo &ci, const std::vector<V> &a, V &ret);
  R intrinsic(const DInst &d, CallInfo &ci);
  R doSwitch(const DInst &d);
  bool run(); // false when path ended
};

R VM::bin(const DInst &d) {
  static const K map[] = {K::Const, K::Add, K::Sub, K::Mul, K::UDiv, K::SDiv, K::URem, K::SRem, K::And, K::Or, K::Xor, K::Shl, K::LShr, K::AShr};
  K op = map[d.op]; V a = g(d.a), b = g(d.b); unsigned w = d.w;
  bool isDiv = op == K::UDiv || op == K::SDiv || op == K::URem || op == K::SRem;
  if (isDiv) {
    Expr *be = b.e ? sub(s, b.e) : nullptr;
    if (be && be->k == K::Const) { b = cv(be->v); be = nullptr; }
    if (be) {
      if (!defined(s, be, "a divisor")) return R::Dead;
      Model m; Sat q = query(s, EP.eq(be, EP.konst(0, w)), m);
      if (q == Sat::Unknown) return R::Dead;
      if (q == Sat::Yes) { report(s, "arithmetic", "division by zero", m); Model m2; Expr *nz = EP.notE(EP.eq(be, EP.konst(0, w))); if (query(s, nz, m2) != Sat::Yes) return R::Dead; s.model = m2; addCons(s, nz); }
      b.e = be;
    } else if (b.c == 0) { report(s, "arithmetic", "division by zero", s.model); return R::Dead; }
  }
  bool isSh = op == K::Shl || op == K::LShr || op == K::AShr;
  if (!a.e && !b.e) {
    if (isSh && b.c >= w) { r[d.dst] = V{0, EP.undef(w)}; return R::Next; }
    r[d.dst] = cv(evalBin(op, a.c, b.c, w)); return R::Next;
  }
  Expr *ae = toE(a, w), *be = toE(b, w);
  Expr *e = EP.bin(op, ae, be);
  if (isSh && EP.umax(be) >= w) e = EP.ite(EP.bin(K::Ult, be, EP.konst(w, w)), e, EP.undef(w));
  r[d.dst] = fromE(e);
  return R::Next;
}
R VM::icmp(const DInst &d) {
  V a = g(d.a), b = g(d.b); unsigned w = d.w2;
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; int64_t sx = sextW(x, w), sy = sextW(y, w); bool v = false;
    switch (d.p) {
    case CmpInst::ICMP_EQ: v = x == y; break; case CmpInst::ICMP_NE: v = x != y; break;
    case CmpInst::ICMP_UGT: v = x > y; break; case CmpInst::ICMP_UGE: v = x >= y; break; case CmpInst::ICMP_ULT: v = x < y; break; case CmpInst::ICMP_ULE: v = x <= y; break;
    case CmpInst::ICMP_SGT: v = sx > sy; break; case CmpInst::ICMP_SGE: v = sx >= sy; break; case CmpInst::ICMP_SLT: v = sx < sy; break; case CmpInst::ICMP_SLE: v = sx <= sy; break;
    }
    r[d.dst] = cv(v); return R::Next;
  }
  Expr *x = toE(a, w), *y = toE(b, w), *e = nullptr;
  switch (d.p) {
  case CmpInst::ICMP_EQ: e = EP.eq(x, y); break; case CmpInst::ICMP_NE: e = EP.notE(EP.eq(x, y)); break;
  case CmpInst::ICMP_UGT: e = EP.bin(K::Ult, y, x); break; case CmpInst::ICMP_UGE: e = EP.bin(K::Ule, y, x); break; case CmpInst::ICMP_ULT: e = EP.bin(K::Ult, x, y); break; case CmpInst::ICMP_ULE: e = EP.bin(K::Ule, x, y); break;
  case CmpInst::ICMP_SGT: e = EP.bin(K::Slt, y, x); break; case CmpInst::ICMP_SGE: e = EP.bin(K::Sle, y, x); break; case CmpInst::ICMP_SLT: e = EP.bin(K::Slt, x, y); break; case CmpInst::ICMP_SLE: e = EP.bin(K::Sle, x, y); break;
  }
  r[d.dst] = fromE(e); return R::Next;
}
R VM::doSwitch(const DInst &d) {
  auto *si = (SwitchInfo *)d.x; V v = g(d.a);
  if (v.e) { Expr *e = sub(s, v.e); if (!defined(s, e, "a switch")) return R::Dead; v = fromE(e); }
  if (!v.e) { auto it = si->lut.find(v.c); edge(s, (uint32_t)(it == si->lut.end() ? si->def : it->second)); return R::Jumped; }
  // one condition per destination
  uint64_t mv = EP.eval(v.e, s.model); auto mi = si->lut.find(mv); int mine = mi == si->lut.end() ? si->def : mi->second;
  std::map<int, Expr *> conds; Expr *any = nullptr;
  for (auto &c : si->cases) { Expr *q = EP.eq(v.e, EP.konst(c.first, d.w)); if (c.second != si->def) { auto &x = conds[c.second]; x = x ? EP.bin(K::Or, x, q) : q; any = any ? EP.bin(K::Or, any, q) : q; } }
  Expr *defc = any ? EP.notE(any) : EP.konst(1, 1); conds[si->def] = defc;
  for (auto &p : conds) if (p.first != mine) {
    Model m; Sat q = query(s, p.second, m);
    if (q == Sat::Unknown) return R::Dead;
    if (q == Sat::No) continue;
    State *o = forkState(s); o->model = m; addCons(*o, p.second); edge(*o, (uint32_t)p.first); gWork.push_back(o);
  }
  addCons(s, conds[mine]); edge(s, (uint32_t)mine);
  return R::Jumped;
}

static R freeHeap(State &s, V p, uint8_t how, const char *what) {
  if (!concretize(s, p, "a freed pointer")) return R::Dead;
  if (p.c == 0) return R::Next;
  uint32_t id = p.c >> 32; Obj *o = getObj(s, id);
  if (!o || (uint32_t)p.c != 0 || o->kind != OK_Heap || o->alloc == AK_None) { report(s, "memory", std::string("invalid ") + what, s.model); return R::Dead; }
  if (o->freed) { report(s, "memory", std::string("double ") + what, s.model); return R::Dead; }
  if (o->alloc != how) { report(s, "memory", std::string("mismatched ") + what, s.model); return R::Dead; }
  Chunk *c = wrChunk(s, id / 64); Obj *n = newObj(0, OK_Heap, o->alloc, false); n->freed = true; derefObj(c->o[id % 64]); c->o[id % 64] = n;
  return R::Next;
}
static Expr *inputVar(State &s, unsigned w, const char *name) {
  static std::unordered_map<uint64_t, Expr *> cache;
  uint64_t key = ((uint64_t)s.inputs.size() << 8) | w; Expr *&e = cache[key];
  if (!e) e = EP.var(w, "in" + std::to_string(s.inputs.size()));
  s.inputs.push_back({e, name});
  if (s.model.size() < EP.numVars()) s.model.resize(EP.numVars(), 0);
  return e;
}
static std::unordered_map<uint64_t, const char *> gNames;
static const char *nameAt(State &s, V p) {
  if (p.e) return "?";
  auto it = gNames.find(p.c); if (it != gNames.end()) return it->second;
  std::string n; Obj *o = getObj(s, p.c >> 32);
  if (o && !o->freed) for (uint32_t i = (uint32_t)p.c; i < o->size && o->data[i]; ++i) n += o->data[i];
  const char *c = strdup(n.c_str()); if (o && o->kind == OK_Const) gNames[p.c] = c; return c;
}
R VM::ext(int x, CallInfo &ci, const std::vector<V> &a, V &ret) {
  switch (x) {
  case X_SymBits: { V w = a[0]; if (w.e || !w.c || w.c > 64) fatal("sym_bits width"); ret = V{0, inputVar(s, (unsigned)w.c, nameAt(s, a[1]))}; if (w.c < 64) ret = fromE(EP.zext(ret.e, 64)); return R::Next; }
  case X_SymChoose: {
    V n = a[0]; if (!concretize(s, n, "a choice count")) return R::Dead;
    if (n.c == 0) return R::Dead;
    size_t mark = s.inputs.size();
    Expr *v = inputVar(s, 32, nameAt(s, a[1]));
    s.model[v->v] = 0;
    for (uint64_t i = n.c; i-- > 1;) { // every value is feasible: the variable is fresh
      State *o = forkState(s); o->model[v->v] = i; addCons(*o, EP.eq(v, EP.konst(i, 32)));
      Frame &f = o->frames.back(); const DInst &d = f.f->code[f.pc]; if (d.dst >= 0) o->regs[f.base + d.dst] = cv(i); ++f.pc; gWork.push_back(o);
    }
    (void)mark; addCons(s, EP.eq(v, EP.konst(0, 32))); ret = cv(0); return R::Next; }
  case X_SymAssume: {
    V c = a[0]; if (!c.e) { if (c.c) return R::Next; ++ST.assumed; return R::Dead; }
    Expr *e = sub(s, EP.notE(EP.eq(c.e, EP.konst(0, c.e->w)))); if (!defined(s, e, "an assumption")) return R::Dead;
    Model m; Sat q = query(s, e, m); if (q != Sat::Yes) { if (q == Sat::No) ++ST.assumed; return R::Dead; }
    s.model = m; addCons(s, e); return R::Next; }
  case X_SymAssert: {
    ++ST.asserts; V c = a[0];
    const char *msg = nameAt(s, a[1]);
    if (!c.e) { if (c.c) return R::Next; report(s, "assert", msg, s.model); return R::Dead; }
    Expr *e = sub(s, EP.notE(EP.eq(c.e, EP.konst(0, c.e->w)))); if (!defined(s, e, (std::string("assertion ") + msg).c_str())) return R::Dead;
    Model m; ++ST.assertQ; Sat q = query(s, EP.notE(e), m); if (q == Sat::Unknown) return R::Dead;
    if (q == Sat::No) return R::Next;
    report(s, "assert", msg, m);
    q = query(s, e, m); if (q != Sat::Yes) return R::Dead;
    s.model = m; addCons(s, e); return R::Next; }
  case X_SymCover: { std::string n; readCStr(s, a[0], n); gCovers.insert(n); return R::Next; }
  case X_SymObserve: { V v = a[0]; if (v.e) { Expr *e = sub(s, v.e); if (!defined(s, e, "an observed output")) return R::Dead; v = fromE(e); } s.obs.push_back(v); return R::Next; }
  case X_SymConcretize: { V v = a[0]; if (!concretize(s, v, "a value")) return R::Dead; ret = v; return R::Next; }
  case X_SymParam: { std::string n; if (readCStr(s, a[0], n) != R::Next) return R::Dead; auto it = gParams.find(n); ret = it == gParams.end() ? a[1] : cv(it->second); return R::Next; }
  case X_SymCase: { V v = a[0]; if (!concretize(s, v, "a case id")) return R::Dead; s.caseId = v.c; return R::Next; }
  case X_LiveHeap: { uint64_t n = 0; for (uint32_t i = 1; i < s.heapN; ++i) { Obj *o = getObj(s, i); if (o && !o->freed && o->kind == OK_Heap) ++n; } ret = cv(n); return R::Next; }
  case X_Malloc: case X_New: case X_NewArr: {
    V n = a[0]; if (!concretize(s, n, "an allocation size")) return R::Dead;
    if (n.c > (256u << 20)) { if (x != X_Malloc) { incomplete("huge allocation"); return R::Dead; } ret = cv(0); return R::Next; }
    ret = cv(addHeap(s, newObj((uint32_t)n.c, OK_Heap, x == X_Malloc ? AK_Malloc : x == X_New ? AK_New : AK_NewArr, true))); return R::Next; }
  case X_Calloc: { V n = a[0], m = a[1]; if (!concretize(s, n, "an allocation size") || !concretize(s, m, "an allocation size")) return R::Dead; ret = cv(addHeap(s, newObj((uint32_t)(n.c * m.c), OK_Heap, AK_Malloc, false))); return R::Next; }
  case X_Realloc: {
    V p = a[0], n = a[1]; if (!concretize(s, p, "a pointer") || !concretize(s, n, "an allocation size")) return R::Dead;
    Obj *old = nullptr; if (p.c) { old = getObj(s, p.c >> 32); if (!old || old->freed || (uint32_t)p.c || old->alloc != AK_Malloc) { report(s, "memory", "invalid realloc", s.model); return R::Dead; } }
    uint64_t na = addHeap(s, newObj((uint32_t)n.c, OK_Heap, AK_Malloc, true));
    if (p.c) { old = getObj(s, p.c >> 32); uint64_t cp = std::min<uint64_t>(old->size, n.c); if (R q = copyMem(s, cv(na), p, cv(cp)); q != R::Next) return q; if (R q = freeHeap(s, p, AK_Malloc, "free"); q != R::Next) return q; }
    ret = cv(na); return R::Next; }
  case X_Free: return freeHeap(s, a[0], AK_Malloc, "free");
  case X_Del: return freeHeap(s, a[0], AK_New, "delete");
  case X_DelArr: return freeHeap(s, a[0], AK_NewArr, "delete[]");
  case X_Ignore0: ret = cv(0); return R::Next;
  case X_Abort: report(s, "abort", "abnormal termination", s.model); return R::Dead;
  case X_Exit: incomplete("exit called"); return R::Dead;
  case X_PureVirtual: report(s, "abort", "pure virtual call", s.model); return R::Dead;
  case X_Snprintf: {
    V dst = a[0], sz = a[1]; std::string fmt, res; if (!concretize(s, dst, "an address") || !concretize(s, sz, "a size")) return R::Dead;
    if (readCStr(s, a[2], fmt) != R::Next) return R::Dead;
    size_t ai = 3;
    for (size_t i = 0; i < fmt.size(); ++i) {
      if (fmt[i] != '%') { res += fmt[i]; continue; }
      if (fmt[i + 1] == '%') { res += '%'; ++i; continue; }
      size_t j = i + 1; while (j < fmt.size() && strchr("-+ #0123456789.lhzjt", fmt[j])) ++j;
      std::string spec = fmt.substr(i, j - i + 1); char conv = fmt[j]; i = j;
      if (ai >= a.size()) fatal("snprintf arguments");
      V v = a[ai]; 
      char buf[512];
      if (conv == 's') { std::string q; if (readCStr(s, v, q) != R::Next) return R::Dead; std::vector<char> big(q.size() + 64); snprintf(big.data(), big.size(), spec.c_str(), q.c_str()); res += big.data(); ++ai; continue; }
      if (!concretize(s, v, "a formatted value")) return R::Dead;
      if (strchr("fgeFGEa", conv)) { double dd; memcpy(&dd, &v.c, 8); snprintf(buf, sizeof buf, spec.c_str(), dd); }
      else { bool lng = spec.find('l') != std::string::npos || spec.find('z') != std::string::npos || conv == 'p'; if (lng) snprintf(buf, sizeof buf, spec.c_str(), v.c); else snprintf(buf, sizeof buf, spec.c_str(), (unsigned)v.c); }
      res += buf; ++ai;
    }
    for (uint64_t i = 0; sz.c && i <= res.size() && i < sz.c; ++i) { uint8_t ch = i == sz.c - 1 || i == res.size() ? 0 : (uint8_t)res[i]; if (storeMem(s, cv(dst.c + i), 1, cv(ch)) != R::Next) return R::Dead; }
    ret = cv(res.size()); return R::Next; }
  default: return R::Dead;
  }
}
R VM::intrinsic(const DInst &d, CallInfo &ci) {
  Intrinsic::ID id = ci.callee->F->getIntrinsicID(); unsigned w = d.w;
  auto A = [&](int i) { return g(ci.args[i]); };
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return copyMem(s, A(0), A(1), A(2));
  case Intrinsic::memset: case Intrinsic::memset_inline: return setMem(s, A(0), A(1), A(2));
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: r[d.dst] = A(0); return R::Next;
  case Intrinsic::trap: case Intrinsic::ubsantrap: report(s, "abort", "trap", s.model); return R::Dead;
  case Intrinsic::is_constant: r[d.dst] = cv(0); return R::Next;
  case Intrinsic::objectsize: r[d.dst] = cv(~0ull & maskW(w)); return R::Next;
  case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
    Expr *a = toE(A(0), w), *b = toE(A(1), w); bool sg = id == Intrinsic::smax || id == Intrinsic::smin, mx = id == Intrinsic::umax || id == Intrinsic::smax;
    Expr *lt = EP.bin(sg ? K::Slt : K::Ult, a, b); r[d.dst] = fromE(mx ? EP.ite(lt, b, a) : EP.ite(lt, a, b)); return R::Next; }
  case Intrinsic::abs: { Expr *a = toE(A(0), w); r[d.dst] = fromE(EP.ite(EP.bin(K::Slt, a, EP.konst(0, w)), EP.bin(K::Sub, EP.konst(0, w), a), a)); return R::Next; }
  case Intrinsic::ctpop: { Expr *a = toE(A(0), w), *q = EP.konst(0, w); for (unsigned i = 0; i < w; ++i) q = EP.bin(K::Add, q, EP.zext(EP.extract(a, i, 1), w)); r[d.dst] = fromE(q); return R::Next; }
  case Intrinsic::ctlz: { Expr *a = toE(A(0), w), *q = EP.konst(w, w); for (unsigned i = 0; i < w; ++i) q = EP.ite(EP.extract(a, i, 1), EP.konst(w - 1 - i, w), q); r[d.dst] = fromE(q); return R::Next; }
  case Intrinsic::cttz: { Expr *a = toE(A(0), w), *q = EP.konst(w, w); for (unsigned i = w; i-- > 0;) q = EP.ite(EP.extract(a, i, 1), EP.konst(i, w), q); r[d.dst] = fromE(q); return R::Next; }
  case Intrinsic::bswap: { Expr *a = toE(A(0), w), *q = nullptr; for (unsigned i = 0; i < w / 8; ++i) { Expr *b = EP.extract(a, 8 * i, 8); q = q ? EP.concat(q, b) : b; } r[d.dst] = fromE(q); return R::Next; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    V c = A(2); if (!concretize(s, c, "a rotate amount")) return R::Dead; unsigned n = (unsigned)(c.c % w); Expr *a = toE(A(0), w), *b = toE(A(1), w);
    if (id == Intrinsic::fshl) r[d.dst] = fromE(n == 0 ? a : EP.bin(K::Or, EP.bin(K::Shl, a, EP.konst(n, w)), EP.bin(K::LShr, b, EP.konst(w - n, w))));
    else r[d.dst] = fromE(n == 0 ? b : EP.bin(K::Or, EP.bin(K::LShr, b, EP.konst(n, w)), EP.bin(K::Shl, a, EP.konst(w - n, w))));
    return R::Next; }
  case Intrinsic::usub_sat: { Expr *a = toE(A(0), w), *b = toE(A(1), w); r[d.dst] = fromE(EP.ite(EP.bin(K::Ult, a, b), EP.konst(0, w), EP.bin(K::Sub, a, b))); return R::Next; }
  case Intrinsic::uadd_with_overflow: { unsigned ww = ci.argw[0]; Expr *a = toE(A(0), ww), *b = toE(A(1), ww), *q = EP.bin(K::Add, a, b); r[d.dst] = fromE(q); r[d.dst + 1] = fromE(EP.bin(K::Ult, q, a)); return R::Next; }
  case Intrinsic::umul_with_overflow: { unsigned ww = ci.argw[0]; V a = A(0), b = A(1); if (!concretize(s, a, "a size") || !concretize(s, b, "a size")) return R::Dead; __uint128_t p = (__uint128_t)a.c * b.c; r[d.dst] = cv((uint64_t)p & maskW(ww)); r[d.dst + 1] = cv((p >> ww) != 0); return R::Next; }
  case Intrinsic::fabs: { V a = A(0); if (!concretize(s, a, "a float")) return R::Dead; r[d.dst] = cv(a.c & (maskW(w) >> 1)); return R::Next; }
  default: incomplete("unsupported intrinsic " + ci.callee->name + " at " + locOf(d.I, false)); return R::Dead;
  }
}
R VM::call(const DInst &d) {
  CallInfo &ci = *(CallInfo *)d.x; DFunc *f = ci.callee;
  if (!f) {
    V p = g(ci.fp); if (!concretize(s, p, "a called function")) return R::Dead;
    uint64_t id = p.c >> 32;
    if ((uint32_t)p.c != 0 || id < FUNC_BASE || id - FUNC_BASE >= gFuncs.size()) { report(s, "memory", p.c >> 32 ? "call through a wild function pointer" : "call through a null function pointer", s.model); return R::Dead; }
    f = gFuncs[id - FUNC_BASE];
  }
  if (f->F->isIntrinsic()) return intrinsic(d, ci);
  if (f->F->isDeclaration()) {
    if (f->ext == -1) f->ext = extOf(f->name);
    if (f->ext == X_Unknown) { incomplete("call of unmodelled function " + f->name); return R::Dead; }
    std::vector<V> a; for (int32_t i : ci.args) a.push_back(g(i));
    V ret = cv(0); R q = ext(f->ext, ci, a, ret);
    if (q == R::Next && d.dst >= 0) r[d.dst] = ret;
    return q;
  }
  if (s.frames.size() > 2000) { report(s, "hang", "unbounded recursion", s.model); return R::Dead; }
  uint32_t callerBase = fr->base; const V *kk = k;
  pushFrame(s, f); sync();
  V *cr = s.regs.data() + callerBase;
  uint32_t n = std::min<uint32_t>((uint32_t)ci.args.size(), f->nargs);
  for (uint32_t i = 0; i < n; ++i) { int32_t q = ci.args[i]; r[i] = q >= 0 ? cr[q] : kk[~q]; }
  for (uint32_t i = n; i < f->nargs; ++i) r[i] = V{0, EP.undef(64)};
  return R::Jumped;
}

static void maybeSplit();
bool VM::run() {
  uint64_t steps = 0;
  for (;;) {
    const DInst &d = fr->f->code[fr->pc];
    ++steps;
    if ((steps & 0x3fff) == 0) {
      s.steps += 0x4000; ST.steps += 0x4000;
      if (s.steps > gStepLimit) { report(s, "hang", "no termination within the step bound", s.model); return false; }
      if (!gWork.empty()) maybeSplit();
      if ((steps & 0x3ffff) == 0) {
        if (SH->stop) { incomplete("stopped early"); return false; }
        if (now() - gT0 > gTime) { incomplete("time budget"); SH->stop = 1; return false; }
      }
    }
    R q = R::Next;
    switch (d.op) {
    case O_Mov: r[d.dst] = g(d.a); break;
    case O_Add: { V a = g(d.a), b = g(d.b); if (!a.e && !b.e) r[d.dst] = cv((a.c + b.c) & maskW(d.w)); else q = bin(d); break; }
    case O_Sub: { V a = g(d.a), b = g(d.b); if (!a.e && !b.e) r[d.dst] = cv((a.c - b.c) & maskW(d.w)); else q = bin(d); break; }
    case O_And: { V a = g(d.a), b = g(d.b); if (!a.e && !b.e) r[d.dst] = cv(a.c & b.c); else q = bin(d); break; }
    case O_Mul: case O_UDiv: case O_SDiv: case O_URem: case O_SRem: case O_Or: case O_Xor: case O_Shl: case O_LShr: case O_AShr: q = bin(d); break;
    case O_ICmp: q = icmp(d); break;
    case O_Trunc: { V a = g(d.a); r[d.dst] = a.e ? fromE(EP.extract(a.e, 0, d.w)) : cv(a.c & maskW(d.w)); break; }
    case O_ZExt: { V a = g(d.a); r[d.dst] = a.e ? fromE(EP.zext(a.e, d.w)) : a; break; }
    case O_SExt: { V a = g(d.a); r[d.dst] = a.e ? fromE(EP.sext(a.e, d.w)) : cv((uint64_t)sextW(a.c, d.w2) & maskW(d.w)); break; }
    case O_Select: {
      V c = g(d.a);
      if (c.e) { c = fromE(sub(s, c.e)); }
      if (!c.e) r[d.dst] = (c.c & 1) ? g(d.b) : g(d.c);
      else r[d.dst] = fromE(EP.ite(c.e, toE(g(d.b), d.w), toE(g(d.c), d.w)));
      break; }
    case O_GepC: { V a = g(d.a); r[d.dst] = a.e ? fromE(EP.bin(K::Add, a.e, EP.konst((uint64_t)d.imm, 64))) : cv(a.c + (uint64_t)d.imm); break; }
    case O_Gep1: {
      V a = g(d.a), b = g(d.b); int64_t sc = (int64_t)d.x;
      if (!a.e && !b.e) { r[d.dst] = cv(a.c + (uint64_t)d.imm + (uint64_t)(sextW(b.c, d.w) * sc)); break; }
      Expr *e = EP.bin(K::Mul, EP.sext(toE(b, d.w), 64), EP.konst((uint64_t)sc, 64));
      e = EP.bin(K::Add, e, toE(a, 64)); r[d.dst] = fromE(EP.bin(K::Add, e, EP.konst((uint64_t)d.imm, 64))); break; }
    case O_Gep: {
      V a = g(d.a); Expr *e = EP.bin(K::Add, toE(a, 64), EP.konst((uint64_t)d.imm, 64));
      for (auto &t : *(std::vector<GepTerm> *)d.x) e = EP.bin(K::Add, EP.bin(K::Mul, EP.sext(toE(g(t.idx), t.w), 64), EP.konst((uint64_t)t.scale, 64)), e);
      r[d.dst] = fromE(e); break; }
    case O_Load: {
      V a = g(d.a), v;
      if (!a.e) { // fast path
        uint64_t ad = a.c + (uint64_t)d.imm; Obj *o = check(s, ad, d.n, false, "read");
        if (!o) { q = R::Dead; break; }
        v = objRead(o, (uint32_t)ad, d.n);
      } else { if (d.imm) a.e = EP.bin(K::Add, a.e, EP.konst((uint64_t)d.imm, 64)); q = loadMem(s, a, d.n, v); if (q != R::Next) break; }
      if (d.w != 8 * d.n) v = v.e ? fromE(EP.extract(v.e, 0, d.w)) : cv(v.c & maskW(d.w));
      r[d.dst] = v; break; }
    case O_Store: {
      V a = g(d.a), v = g(d.b);
      if (!a.e) {
        uint64_t ad = a.c + (uint64_t)d.imm; Obj *o = check(s, ad, d.n, true, "write");
        if (!o) { q = R::Dead; break; }
        if (o->rc > 1 || (uint32_t)(ad >> 32) < s.heapN) o = getObjW(s, (uint32_t)(ad >> 32));
        objWrite(o, (uint32_t)ad, d.n, v);
      } else { if (d.imm) a.e = EP.bin(K::Add, a.e, EP.konst((uint64_t)d.imm, 64)); q = storeMem(s, a, d.n, v); }
      break; }
    case O_Alloca: {
      V n = g(d.a); if (!concretize(s, n, "a stack size")) { q = R::Dead; break; }
      uint64_t sz = (uint64_t)d.imm * n.c; if (sz > (64u << 20)) { report(s, "memory", "stack overflow", s.model); q = R::Dead; break; }
      s.stack.push_back(newObj((uint32_t)sz, OK_Stack, AK_None, true)); r[d.dst] = cv((STACK_BASE + s.stack.size() - 1) << 32); break; }
    case O_ByVal: {
      s.stack.push_back(newObj((uint32_t)d.imm, OK_Stack, AK_None, true)); V t = cv((STACK_BASE + s.stack.size() - 1) << 32);
      q = copyMem(s, t, g(d.a), cv((uint64_t)d.imm)); if (q == R::Next) r[d.dst] = t; break; }
    case O_Br: edge(s, (uint32_t)d.a); q = R::Jumped; break;
    case O_CondBr: {
      V c = g(d.a);
      if (!c.e) { edge(s, (uint32_t)((c.c & 1) ? d.b : d.c)); q = R::Jumped; break; }
      State *o; int t = decide(s, c, &o, "a branch");
      if (t < 0) { q = R::Dead; break; }
      if (o) { edge(*o, (uint32_t)(t ? d.c : d.b)); gWork.push_back(o); }
      edge(s, (uint32_t)(t ? d.b : d.c)); q = R::Jumped; break; }
    case O_Switch: q = doSwitch(d); break;
    case O_Ret: {
      V tmp[16]; uint32_t n = d.n; if (n > 16) fatal("large return");
      for (uint32_t i = 0; i < n; ++i) tmp[i] = g((*(std::vector<int32_t> *)d.x)[i]);
      while (s.stack.size() > fr->stackMark) { derefObj(s.stack.back()); s.stack.pop_back(); }
      s.regs.resize(fr->base); s.frames.pop_back();
      if (s.frames.empty()) { s.steps += steps & 0x3fff; ST.steps += steps & 0x3fff; return false; }
      sync();
      const DInst &cd = fr->f->code[fr->pc];
      if (cd.dst >= 0) for (uint32_t i = 0; i < n; ++i) r[cd.dst + i] = tmp[i];
      ++fr->pc; q = R::Jumped; break; }
    case O_Call: q = call(d); break;
    case O_Unreachable: report(s, "abort", "undefined behaviour: unreachable code reached", s.model); q = R::Dead; break;
    case O_FBin: { V a = g(d.a), b = g(d.b); if (!concretize(s, a, "a float") || !concretize(s, b, "a float")) { q = R::Dead; break; } double x = bitsToD(a.c, d.w), y = bitsToD(b.c, d.w); double z = d.p == 0 ? x + y : d.p == 1 ? x - y : d.p == 2 ? x * y : x / y; r[d.dst] = cv(dToBits(z, d.w)); break; }
    case O_FNeg: { V a = g(d.a); r[d.dst] = fromE(EP.bin(K::Xor, toE(a, d.w), EP.konst(1ull << (d.w - 1), d.w))); break; }
    case O_FCmp: {
      V a = g(d.a), b = g(d.b); if (!concretize(s, a, "a float") || !concretize(s, b, "a float")) { q = R::Dead; break; }
      double x = bitsToD(a.c, d.w2), y = bitsToD(b.c, d.w2); bool un = std::isnan(x) || std::isnan(y); bool eq = x == y, gt = x > y, lt = x < y;
      r[d.dst] = cv(((d.p & 1) && eq) || ((d.p & 2) && gt) || ((d.p & 4) && lt) || ((d.p & 8) && un)); break; }
    case O_FCast: {
      V a = g(d.a); if (!concretize(s, a, "a float")) { q = R::Dead; break; } uint64_t z = 0;
      switch (d.imm) { case Instruction::FPExt: case Instruction::FPTrunc: z = dToBits(bitsToD(a.c, d.w2), d.w); break; case Instruction::SIToFP: z = d.w == 32 ? dToBits((float)sextW(a.c, d.w2), 32) : dToBits((double)sextW(a.c, d.w2), 64); break; case Instruction::UIToFP: z = d.w == 32 ? dToBits((float)a.c, 32) : dToBits((double)a.c, 64); break; case Instruction::FPToSI: z = (uint64_t)(int64_t)bitsToD(a.c, d.w2) & maskW(d.w); break; default: z = (uint64_t)bitsToD(a.c, d.w2) & maskW(d.w); }
      r[d.dst] = cv(z); break; }
    case O_Nop: break;
    default: incomplete(std::string("unsupported instruction ") + (d.x ? (const char *)d.x : "") + " at " + locOf(d.I, true)); q = R::Dead; break;
    }
    if (q == R::Next) { ++fr->pc; continue; }
    if (q == R::Jumped) { sync(); continue; }
    ST.steps += steps & 0x3fff;
    return false;
  }
}

static void sampleDone(State &s) {
  // replayable record of a completed path: inputs and the outputs the engine predicts
  uint64_t n = ST.completed;
  bool take = (n <= 4) || ((n & (n - 1)) == 0) || (n % (97 + gSeed % 17) == 0);
  if (!take || SH->samples >= (int)gSamples) return;
  int k = __sync_fetch_and_add(&SH->samples, 1); if (k >= (int)gSamples) return;
  char b[64]; snprintf(b, sizeof b, "/sample_%d", k); std::string base = gOut + b;
  FILE *f = fopen((base + ".inputs").c_str(), "w"); writeInputs(f, s, s.model); fclose(f);
  f = fopen((base + ".obs").c_str(), "w");
  for (V v : s.obs) fprintf(f, "%llu\n", (unsigned long long)(v.e ? EP.eval(v.e, s.model) : v.c));
  fclose(f);
}
static size_t rss() { FILE *f = fopen("/proc/self/statm", "r"); if (!f) return 0; unsigned long a = 0, b = 0; if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); return b * 4096; }

static void maybeSplit() {
  if (gJobs <= 1 || gWork.empty()) return;
  double t = now(); if (t - gLastSplit < 0.01) return;
  int a = SH->active; if (a >= gJobs) return;
  if (!__sync_bool_compare_and_swap(&SH->active, a, a + 1)) return;
  gLastSplit = t;
  // the child takes every other pending state, starting with the oldest; the parent keeps the rest and the running one
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { __sync_fetch_and_sub(&SH->active, 1); return; }
  std::vector<State *> mine;
  if (p == 0) {
    ST = {}; SS = {}; gCovers.clear(); gIncomplete.clear();
    for (size_t i = 0; i < gWork.size(); i += 2) mine.push_back(gWork[i]);
    gWork = mine; 
    extern void workLoop(); workLoop();
    _exit(0);
  }
  for (size_t i = 1; i < gWork.size(); i += 2) mine.push_back(gWork[i]);
  for (size_t i = 0; i < gWork.size(); i += 2) freeState(gWork[i]);
  gWork = mine;
}
void finish() {
  __sync_fetch_and_sub(&SH->active, 1);
  // workers leave as soon as they are done; the root, to which the orphans fall, sees how every one of them ended
  if (getpid() == gRoot) { int st = 0; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) incomplete("a worker process died"); }
  char b[64]; snprintf(b, sizeof b, "/w_%d.json", (int)getpid());
  FILE *f = fopen((gOut + b).c_str(), "w");
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(f, "{\"paths\":%llu,\"completed\":%llu,\"assumed_away\":%llu,\"errors\":%llu,\"steps\":%llu,\"forks\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"concretizations\":%llu,", (unsigned long long)ST.paths, (unsigned long long)ST.completed, (unsigned long long)ST.assumed, (unsigned long long)ST.errs, (unsigned long long)ST.steps, (unsigned long long)ST.forks, (unsigned long long)ST.asserts, (unsigned long long)ST.assertQ, (unsigned long long)ST.concretized);
  fprintf(f, "\"queries\":%llu,\"solver_calls\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_time\":%.3f,\"solver_max\":%.3f,\"exprs\":%llu,\"maxrss_mb\":%ld,\"wall\":%.3f,", (unsigned long long)SS.queries, (unsigned long long)SS.solverCalls, (unsigned long long)SS.sat, (unsigned long long)SS.unsat, (unsigned long long)SS.unknown, (unsigned long long)SS.cacheHits, SS.time, SS.maxTime, (unsigned long long)EP.size(), ru.ru_maxrss / 1024, now() - gT0);
  fprintf(f, "\"incomplete\":["); bool c = false; for (auto &i : gIncomplete) { fprintf(f, "%s\"%s\"", c ? "," : "", jesc(i).c_str()); c = true; }
  fprintf(f, "],\"covers\":["); c = false; for (auto &i : gCovers) { fprintf(f, "%s\"%s\"", c ? "," : "", jesc(i).c_str()); c = true; }
  fprintf(f, "],\"functions\":["); c = false;
  for (DFunc *d : gFuncs) if (d->executed && !d->F->isDeclaration()) { fprintf(f, "%s\"%s\"", c ? "," : "", jesc(d->name).c_str()); c = true; }
  fprintf(f, "]}\n"); fclose(f);
}
void workLoop() {
  unsigned tick = 0;
  while (!gWork.empty()) {
    if (SH->stop) { incomplete("stopped early"); break; }
    State *s = gWork.back(); gWork.pop_back();
    ++ST.paths;
    VM vm(*s);
    vm.run();
    if (s->frames.empty()) { ++ST.completed; sampleDone(*s); }
    freeState(s);
    if (now() - gT0 > gTime) { if (!gWork.empty()) incomplete("time budget"); SH->stop = 1; }
    if ((++tick & 63) == 0 && rss() > gRssLimit) { incomplete("memory budget"); SH->stop = 1; }
    maybeSplit();
  }
  finish();
}

int main(int argc, char **argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512ull << 20) && !getenv("VS_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1024ull << 20) : std::min<rlim_t>(rl.rlim_max, 1024ull << 20); setrlimit(RLIMIT_STACK, &rl); setenv("VS_STACK", "1", 1); execv("/proc/self/exe", argv); }
  std::string file;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--out") gOut = val(); else if (a == "--time") gTime = atof(val().c_str()); else if (a == "--steps") gStepLimit = strtoull(val().c_str(), 0, 10);
    else if (a == "--jobs") gJobs = atoi(val().c_str()); else if (a == "--max-errors") gMaxErr = (unsigned)atoi(val().c_str()); else if (a == "--samples") gSamples = (unsigned)atoi(val().c_str());
    else if (a == "--seed") gSeed = strtoull(val().c_str(), 0, 10); else if (a == "-v") gVerbose = true;
    else if (a == "--param") { std::string p = val(); auto e = p.find('='); gParams[p.substr(0, e)] = strtoull(p.c_str() + e + 1, 0, 10); }
    else file = a;
  }
  SMDiagnostic err; gM = parseIRFile(file, err, gCtx);
  if (!gM) { err.print("engine", errs()); return 3; }
  DL = &gM->getDataLayout();
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SH->active = 1;
  gInit = new State(); { Chunk *c = new Chunk(); memset(c->o, 0, sizeof c->o); gInit->heap.push_back(c); }
  initGlobals();
  Function *mf = gM->getFunction("harness_main"); if (!mf) { fprintf(stderr, "no harness_main\n"); return 3; }
  gMain = funcOf(mf);
  pushFrame(*gInit, gMain);
  // static constructors run first: push them on top, last first
  if (auto *G = gM->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(G->getInitializer()))
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) gCtors.push_back(funcOf(cast<Function>(cast<ConstantStruct>(ca->getOperand(i))->getOperand(1)->stripPointerCasts())));
  if (!gCtors.empty()) {
    // run each to completion as its own frame stack
    std::vector<Frame> saved = gInit->frames; std::vector<V> savedRegs = gInit->regs;
    for (DFunc *c : gCtors) { gInit->frames.clear(); gInit->regs.clear(); pushFrame(*gInit, c); VM vm(*gInit); vm.run(); if (!gInit->frames.empty()) fatal("static constructor did not finish"); }
    gInit->frames = saved; gInit->regs = savedRegs;
  }
  gRoot = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1);
  gWork.push_back(gInit);
  workLoop();
  return 0;
}
