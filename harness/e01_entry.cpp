// E01: modules with global variables of any storage class, functions calling each other in any way and entry points; the interface is compared with reachability computed here.
#include "build.h"
#include "gen.h"
#include "spvgentwo/Grammar.h"
struct Plain : IAllocator { void *allocate(sgt_size_t k, unsigned) override { return malloc(k); } void deallocate(void *p, sgt_size_t) override { free(p); } };
static Plain plain; static AuditAllocatorT<4096> al; static Sink s1, s2; static Ins ins[512]; static Gen g;
static const char *const names[] = {"m", "main", "entry_b", "a rather long name"};
static const unsigned Vars = 3, Fns = 2;
static Instruction *var[Vars]; static unsigned sc[Vars]; static unsigned uses[4], calls[4]; // per function (2 helpers, 2 entry points): variables used, helpers called
static Instruction *uintT, *ptrT;
static void touch(Function &f, unsigned who, unsigned v, unsigned how, BasicBlock &bb, unsigned other) {
  auto I = [&]() -> Instruction & { return *bb.addInstruction(); };
  Module &m = *f.getModule(); Instruction *one = m.constant(1u);
  uses[who] |= 1u << v;
  switch (how) {
  case 0: I().makeOp(spv::Op::OpLoad, uintT, InvalidId, var[v]); break;
  case 1: I().makeOp(spv::Op::OpStore, var[v], one); break;
  case 2: I().makeOp(spv::Op::OpCopyMemory, var[other], var[v]); uses[who] |= 1u << other; break;
  case 3: I().makeOp(spv::Op::OpSelect, ptrT, InvalidId, m.constant(true), var[other], var[v]); uses[who] |= 1u << other; break;
  case 4: I().makeOp(spv::Op::OpLoad, uintT, InvalidId, var[v]); I().makeOp(spv::Op::OpStore, var[v], one); sym_cover("used twice"); break;
  case 5: I().makeOp(spv::Op::OpCopyMemory, var[v], var[other]); I().makeOp(spv::Op::OpCopyMemory, var[other], var[v]); uses[who] |= 1u << other; break;
  case 6: I().makeOp(spv::Op::OpAtomicIAdd, uintT, InvalidId, var[v], one, one, one); break;
  case 7: m.addName(var[v], "only named"); uses[who] &= ~(1u << v); sym_cover("not used"); break;
  }
}
static unsigned reach(unsigned who) { unsigned u = uses[who], seen = 0, todo = calls[who]; while (todo & ~seen) { for (unsigned k = 0; k < Fns; ++k) if ((todo & ~seen) >> k & 1) { seen |= 1u << k; u |= uses[k]; todo |= calls[k]; } } return u; }
static bool listed(unsigned v, bool all) { return all || sc[v] == 1 || sc[v] == 3; }
// id by which the variable with number v is known in the stream: the k-th module level OpVariable
static void judge(const Sink &s, unsigned minor, const unsigned *model, const unsigned *name, unsigned eps, Module &m) {
  unsigned k = validate(s.w, s.n, 0x10000 | minor << 8, ins, 512), ids[Vars], nv = 0, heads[2] = {0, 0}, ne = 0; bool in = false;
  for (unsigned i = 0; i < k; ++i) {
    if (ins[i].op == 54) in = true; if (ins[i].op == 56) in = false;
    if (!in && ins[i].op == 59 && nv < Vars) ids[nv++] = ins[i].w[1];
    if (ins[i].op == 15 && ne < 2) heads[ne++] = i;
  }
  sym_assert(ne == eps && nv == Vars, "every entry point and variable is written");
  const bool all = minor >= 4;
  for (unsigned e = 0; e < eps; ++e) {
    const Ins &x = ins[heads[e]];
    sym_assert(x.w[0] == model[e], "an entry point keeps its execution model");
    const char *want = names[name[e]]; unsigned len = 0; while (want[len]) ++len;
    unsigned words = len / 4 + 1; sym_assert(x.n >= 2 + words, "an entry point keeps its name");
    for (unsigned q = 0; q < words * 4; ++q) sym_assert((x.w[2 + q / 4] >> 8 * (q % 4) & 0xff) == (q < len ? (unsigned char)want[q] : 0u), "an entry point keeps its name");
    unsigned r = reach(2 + e);
    for (unsigned v = 0; v < Vars; ++v) {
      unsigned c = 0; for (unsigned q = 2 + words; q < x.n; ++q) c += x.w[q] == ids[v];
      bool should = (r >> v & 1) && listed(v, all);
      if (should) { sym_assert(c != 0, "every global variable that is used is listed"); sym_assert(c == 1, "a variable is listed once"); sym_cover("listed"); }
      else sym_assert(c == 0, "only variables that are used and required are listed");
    }
    for (unsigned q = 2 + words; q < x.n; ++q) { bool known = false; for (unsigned v = 0; v < Vars; ++v) known |= x.w[q] == ids[v]; sym_assert(known, "the interface lists variables"); }
  }
  unsigned e = 0;
  for (EntryPoint &p : m.getEntryPoints()) {
    sym_assert(p.isEntryPoint() && p.asEntryPoint() == &p, "it is an entry point");
    sym_assert((unsigned)p.getExecutionModel() == model[e], "the execution model is reported");
    const char *want = names[name[e]], *have = p.getName(); sym_assert(have != nullptr, "the name is reported");
    for (unsigned q = 0;; ++q) { sym_assert(have[q] == want[q], "the name is reported"); if (!want[q]) break; }
    const Ins &x = ins[heads[e]]; sym_assert(x.w[1] == (unsigned)p.getFunction()->getResultId(), "an entry point keeps its function");
    unsigned n = 0; for (auto &o : p.getInterfaceVariables()) { sym_assert(o.isInstruction() && o.getInstruction()->getOperation() == spv::Op::OpVariable, "interface variables are variables"); ++n; }
    sym_assert(n + 2 + (unsigned)(x.n - 2 - n) == x.n, "interface"); ++e;
  }
}
static void same(const Sink &a, const Sink &b, const char *what) { sym_assert(a.n == b.n, what); for (unsigned i = 0; i < a.n; ++i) sym_assert(a.w[i] == b.w[i], what); }
extern "C" void harness_main(void) {
  static Grammar gr(&plain);
  if (sym_param("shared", 0)) { // two entry points on one function
    g.scheme = 0; g.n = 0;
    auto W = [](unsigned x) { g.put(x); };
    g.w[g.n++] = 0x07230203; g.w[g.n++] = 0x10300; g.w[g.n++] = 0; g.w[g.n++] = 20; g.w[g.n++] = 0;
    g.op(17); W(1); g.op(14); W(0); W(1); g.op(15); W(4); W(3); W('a'); g.op(15); W(0); W(3); W('b'); g.op(19); W(1); g.op(33); W(2); W(1); g.op(54); W(1); W(3); W(0); W(2); g.op(248); W(4); g.op(253); g.op(56);
    Module m(&al); Source src(g.w, g.n); bool ok = m.readAndInit(src, gr);
    s1.n = 0; unsigned k = 0, eps = 0; if (ok) { m.write(s1); k = split(s1.w + 5, s1.n - 5, ins, 512); } for (unsigned i = 0; i < k && k != ~0u; ++i) eps += ins[i].op == 15;
    sym_cover("shared"); sym_assert(ok && eps == 2, "two entry points may share a function");
    return;
  }
  Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple);
  unsigned minor = sym_u32("minor"); sym_assume(minor <= 6);
  m.setSpvVersion(1, (unsigned char)minor);
  uintT = m.type<unsigned>(); ptrT = m.type<unsigned *>(spv::StorageClass::Private); m.constant(true);
  for (unsigned v = 0; v < Vars; ++v) { sc[v] = sym_u32("storage class"); sym_assume(sc[v] <= 12 && sc[v] != 7); var[v] = m.addGlobalVariableInstr()->opVariable(ptrT, (spv::StorageClass)sc[v]); }
  const unsigned eps = sym_param("eps", 1);
  Function *fn[2 + 2]; const unsigned shape = sym_choose(4, "shape");
  for (unsigned k = 0; k < Fns; ++k) fn[k] = &m.addFunction<void>(k ? "g" : "f");
  unsigned model[2], name[2];
  for (unsigned e = 0; e < eps; ++e) {
    model[e] = sym_u32("model"); name[e] = e ? 3 : shape; sym_assume(model[e] < 0x7fffffff);
    if ((shape + e) & 1) { EntryPoint &x = m.addEntryPoint(); x.setReturnType(m.type<void>()); x.finalize((spv::ExecutionModel)model[e], spv::FunctionControlMask::MaskNone, names[name[e]]); x.addBasicBlock(); fn[2 + e] = &x; sym_cover("finalized by hand"); }
    else fn[2 + e] = &m.addEntryPoint((spv::ExecutionModel)model[e], names[name[e]]);
  }
  BasicBlock *bb[4];
  for (unsigned k = 0; k < 2 + eps; ++k) { bb[k] = &**fn[k]; Instruction *l = fn[k]->variable<unsigned>("local"); (*bb[k])->opStore(l, m.constant(1u)); uses[k] = calls[k] = 0; }
  // one function has its code in a second block
  if (shape) { unsigned k = shape - 1; { BasicBlock &n = fn[k]->addBasicBlock(); (*bb[k])->opBranch(&n); bb[k] = &n; sym_cover("second block"); } }
  const unsigned nuses = sym_param("uses", 2);
  bool callFirst = shape == 1;
  auto callAll = [&] {
    for (unsigned k = 0; k < 2 + eps; ++k) { if (sym_param("rec", 1) || k >= Fns) calls[k] = sym_choose(4, "calls"); else calls[k] = sym_choose(2, "calls") << (1 - k); for (unsigned c = 0; c < Fns; ++c) if (calls[k] >> c & 1) { (*bb[k]).addInstruction()->makeOp(spv::Op::OpFunctionCall, m.type<void>(), InvalidId, fn[c]->getFunction()); if (c == k) sym_cover("recursive"); } }
  };
  if (callFirst) callAll();
  auto use = [&](unsigned v) { unsigned who = sym_choose(2 + eps, "user"); touch(*fn[who], who, v, v ? 2 * sym_choose(2, "use") : sym_choose(8, "use"), *bb[who], (v + 1) % Vars); };
  for (unsigned u = 0; u < nuses; ++u) use(u % Vars);
  if (!callFirst) callAll();
  for (unsigned k = 0; k < 2 + eps; ++k) (*bb[k])->opReturn();
  s1.n = 0; sym_assert(m.finalizeAndWrite(s1), "the module can be written");
  judge(s1, minor, model, name, eps, m);
  s2.n = 0; m.finalizeEntryPoints(); sym_assert(m.finalizeAndWrite(s2), "the module can be written"); same(s1, s2, "finalizing again changes nothing");
  sym_observe(s1.n); for (unsigned i = 5; i < s1.n && i < 30; ++i) sym_observe(s1.w[i]);
  switch (sym_choose(sym_param("then", 3), "then")) {
  case 0: break;
  case 1: { // the interface follows a change of the code and of the version
    BasicBlock &n = fn[2]->front(); (void)n; n.emplace_front(&n, spv::Op::OpNop);
    unsigned v = Vars - 1; n.front().makeOp(spv::Op::OpStore, var[v], m.constant(1u)); uses[2] |= 1u << v; // in front of the local variable would be out of order; only the interface is looked at
    unsigned minor2 = sym_u32("new minor"); sym_assume(minor2 <= 6); m.setSpvVersion(1, (unsigned char)minor2);
    m.finalizeEntryPoints();
    unsigned r = reach(2), q = 0; for (unsigned x = 0; x < Vars; ++x) q += (r >> x & 1) && listed(x, minor2 >= 4);
    unsigned c = 0; for (auto &o : fn[2]->asEntryPoint()->getInterfaceVariables()) { unsigned x = 0; while (x < Vars && o.getInstruction() != var[x]) ++x; sym_assert(x < Vars && (r >> x & 1) && listed(x, minor2 >= 4), "only variables that are used and required are listed"); ++c; }
    sym_assert(c == q, "every global variable that is used is listed"); sym_cover("changed"); break; }
  case 3: { // an instruction raises the version when requirements are computed
    BasicBlock &n = fn[2]->front(); n.emplace_front(&n, spv::Op::OpNop).makeOp(spv::Op::OpCopyLogical, uintT, InvalidId, m.constant(1u));
    if (sym_choose(2, "write")) { s2.n = 0; m.finalizeAndWrite(s2, &gr); } else m.finalize(&gr);
    sym_assert(m.getSpvVersion() == (minor > 4 ? 0x10000 | minor << 8 : 0x10400u), "the version is raised"); unsigned r = reach(2), q = 0, c = 0; for (unsigned x = 0; x < Vars; ++x) q += r >> x & 1;
    for (auto &o : fn[2]->asEntryPoint()->getInterfaceVariables()) { (void)o; ++c; } sym_assert(c == q, "every global variable that is used is listed"); sym_cover("raised"); break; }
  case 2: { // the same after reading
    Module x(&al); Source src(s1.w, s1.n); sym_assert(x.readAndInit(src, gr), "the module is read back");
    s2.n = 0; sym_assert(x.finalizeAndWrite(s2), "the module can be written"); judge(s2, minor, model, name, eps, x); sym_cover("read"); break; }
  }
}
