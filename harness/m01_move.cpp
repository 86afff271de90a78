// M01/A02: built modules are moved, reset, partly removed and destroyed; what they are and what they own is compared before and after.
#include "build.h"
#include "gen.h"
#include "spvgentwo/Grammar.h"
struct Plain : IAllocator { void *allocate(sgt_size_t k, unsigned) override { return malloc(k); } void deallocate(void *p, sgt_size_t) override { free(p); } };
static Plain plain; static AuditAllocatorT<4096> al, al2; static Sink s1, s2; static Ins ins[512]; static Gen g;
void *operator new(decltype(sizeof(0)), void *p, int) noexcept { return p; }
static Module *fresh(void *at, IAllocator *a) { return ::new (at, 0) Module(a, spv::AddressingModel::Logical, spv::MemoryModel::Simple); }
struct Seen { const Instruction *named[64]; const char *name[64]; unsigned member[64], n = 0; const Instruction *type[128], *constant[64]; const Instruction *typeInstr[128]; unsigned types = 0, constants = 0; unsigned eps = 0, caps = 0; };
static Seen seen;
static void record(Module &m) {
  m.iterateInstructions([&](const Instruction &i) {
    if (const char *s = m.getName(&i)) { seen.named[seen.n] = &i; seen.member[seen.n] = sgt_uint32_max; seen.name[seen.n++] = s; }
    if (i.isType() && m.getTypeInfo(&i)) { seen.typeInstr[seen.types] = m.getTypeInstr(*m.getTypeInfo(&i)); seen.type[seen.types++] = &i; }
    if (i.isSpecOrConstant() && m.getConstantInfo(&i)) seen.constant[seen.constants++] = &i;
  });
}
static void ownership(Module &m) { // everything in the module belongs to it
  m.iterateInstructions([&](const Instruction &i) { sym_assert(i.getModule() == &m, "every instruction belongs to the module that holds it"); });
  auto fn = [&](Function &f) {
    sym_assert(f.getModule() == &m && f.getFunction()->getFunction() == &f && f.getFunctionEnd()->getFunction() == &f && f.getAllocator() == m.getAllocator(), "every function belongs to the module");
    for (Instruction &p : f.getParameters()) sym_assert(p.getFunction() == &f, "parameters belong to their function");
    for (BasicBlock &b : f) { sym_assert(b.getFunction() == &f && b.getModule() == &m && b.getLabel()->getBasicBlock() == &b, "blocks belong to their function"); for (Instruction &i : b) sym_assert(i.getBasicBlock() == &b && i.getFunction() == &f, "instructions belong to their block"); }
  };
  for (Function &f : m.getFunctions()) fn(f);
  for (EntryPoint &e : m.getEntryPoints()) { fn(e); sym_assert(e.isEntryPoint() && e.asEntryPoint() == &e && e.getEntryPoint()->getFunction() == &e, "entry points belong to the module"); }
}
static void lookups(Module &m) {
  for (unsigned i = 0; i < seen.n; ++i) sym_assert(m.getName(seen.named[i]) == seen.name[i], "names are still known");
  for (unsigned i = 0; i < seen.types; ++i) { const Type *t = m.getTypeInfo(seen.type[i]); sym_assert(t && m.getTypeInstr(*t) == seen.typeInstr[i] && m.addType(*t) == seen.typeInstr[i], "types are still known"); }
  for (unsigned i = 0; i < seen.constants; ++i) { const Constant *c = m.getConstantInfo(seen.constant[i]); sym_assert(c != nullptr, "constants are still known"); if ((unsigned)c->getOperation() < 48) { unsigned before = (unsigned)m.getTypesAndConstants().size(); m.addConstant(*c); sym_assert(m.getTypesAndConstants().size() == before, "constants are still known"); } }
}
static void same(const Sink &a, const Sink &b, const char *what) { sym_assert(a.n == b.n, what); for (unsigned i = 0; i < a.n; ++i) sym_assert(a.w[i] == b.w[i], what); }
static void empty(Module &m) {
  unsigned n = 0; m.iterateInstructions([&n](const Instruction &i) { ++n; sym_assert((unsigned)i.getOperation() == 14, "only the memory model is left"); });
  sym_assert(n == 1 && m.getFunctions().empty() && m.getEntryPoints().empty() && m.getTypesAndConstants().empty() && m.getNames().empty(), "a reset module is empty");
  sym_assert(!m.checkCapability(spv::Capability::Shader) && m.getTypeInstr(m.newType().Int()) == nullptr && m.getExtensionInstructionImport("GLSL.std.450") == nullptr, "nothing is found in a reset module");
}
static void continueBuilding(Module &m, unsigned k) {
  Builder b(m); b.light = true; b.act(k);
  Sink &s = s2; s.n = 0;
  bool ok = m.finalizeAndWrite(s); sym_assert(ok || !b.complete, "building goes on");
  if (ok) { validate(s.w, s.n, m.getSpvVersion(), ins, 512); sym_cover("continued"); }
  ownership(m);
}
// a module of its own history: built, or read
static void fill(Module &m, Builder &b, unsigned steps, const Grammar &gr) {
  for (unsigned i = 0; i < steps; ++i) b.act(sym_choose(Builder::Kinds));
}
extern "C" void harness_main(void) {
  static Grammar gr(&plain);
  const unsigned mode = sym_param("mode", 0), steps = sym_param("steps", 1), more = sym_param("more", 1);
  void *raw1 = malloc(sizeof(Module)), *raw2 = malloc(sizeof(Module));
  if (mode == 0) { // moving a module
    Module *m = fresh(raw1, &al);
    m->setSpvVersion(1, (unsigned char)(sym_u8() & 7)); m->setSpvGenerator(sym_u32("generator"));
    Builder b(*m); b.light = sym_param("light", 0); bool ok;
    if (sym_param("read", 0)) { unsigned f[1] = {sym_choose(35, "feature")}; g.scheme = 1; g.module(f, 1, sym_choose(2, "entry point"), sym_u32("version"), sym_u32("generator")); Source src(g.w, g.n); ok = m->readAndInit(src, gr); sym_assume(ok); }
    else { fill(*m, b, steps, gr); m->finalize(); }
    ok = m->write(s1);
    record(*m);
    const Instruction *mm = nullptr; (void)mm;
    Module *x;
    unsigned how = sym_choose(4, "how");
    if (how == 0) { x = ::new (raw2, 0) Module(stdrep::move(*m)); sym_cover("constructed"); }
    else { x = fresh(raw2, &al2); if (how > 1) { Builder o(*x); o.light = true; o.act(how == 2 ? 12 : 13); x->setSpvVersion(3, 3); x->setSpvGenerator(77); x->finalize(); } *x = stdrep::move(*m); sym_cover("assigned"); }
    if (how == 0 && sym_choose(2, "self")) { Module &alias = *x; *x = stdrep::move(alias); }
    m->~Module(); __builtin_memset(raw1, 0xEE, sizeof(Module)); free(raw1); // nothing may refer to it any more
    sym_assert(al2.used == 0, "what the target held before is released");
    ownership(*x);
    sym_assert(x->getAllocator() == &al, "the module works on the allocator of its contents");
    s2.n = 0; bool ok2 = x->write(s2);
    sym_assert(ok == ok2, "a moved module can be written as its source could");
    if (ok) { same(s1, s2, "a moved module serializes to the words of its source"); sym_cover("written"); }
    lookups(*x);
    sym_observe(s2.n); for (unsigned i = 0; i < s2.n && i < 40; ++i) sym_observe(s2.w[i]);
    if (more && b.complete && !sym_param("read", 0)) { static const unsigned then[] = {4, 8, 9, 12, 13}; continueBuilding(*x, then[sym_choose(5, "then")]); };
    x->~Module(); free(raw2);
  } else if (mode == 1) { // moving a function
    Module *m = fresh(raw1, &al); free(raw2);
    Builder b(*m); b.act(11 + 3 * 0 + sym_choose(2, "function")); if (b.fn == nullptr) sym_assume(false);
    m->finalize(); Function &f = *b.fn; f.write(s1); const unsigned blocks = (unsigned)f.size(), params = (unsigned)f.getParameters().size(); Type ft(f.getFunctionType());
    auto judge = [&](Function &x) {
      sym_assert(x.getModule() == m, "a moved function belongs to its module");
      sym_assert(x.getFunction()->getFunction() == &x && x.getFunctionEnd()->getFunction() == &x && x.getFunction()->getModule() == m, "its own instructions belong to it");
      sym_assert(x.size() == blocks && x.getParameters().size() == params && x.getFunctionType() == ft && x.isFinalized(), "it has the blocks, parameters and type of its source");
      for (Instruction &p : x.getParameters()) sym_assert(p.getFunction() == &x && p.getModule() == m, "parameters belong to the function");
      for (BasicBlock &q : x) { sym_assert(q.getFunction() == &x && q.getModule() == m && q.getLabel()->getFunction() == &x, "blocks belong to the function"); for (Instruction &i : q) sym_assert(i.getFunction() == &x && i.getModule() == m, "instructions belong to the function"); }
      x.write(s2); same(s1, s2, "a moved function serializes to the words of its source");
      sym_observe(s2.n);
    };
    switch (sym_choose(3, "how")) {
    case 0: { Function x(m, stdrep::move(f)); judge(x); break; }
    case 1: { Function &x = m->addFunction<unsigned, unsigned, unsigned>("other", spv::FunctionControlMask::MaskNone); x->opUnreachable(); x = stdrep::move(f); judge(x); break; }
    case 2: { Function x; x = stdrep::move(f); judge(x); break; }
    }
    m->~Module(); free(raw1);
  } else { // everything that was taken is given back, whatever happens on the way
    Module *m = fresh(raw1, &al); free(raw2); bool wellFormed = true, broken = false;
    Builder b(*m); b.light = sym_param("light", 0);
    for (unsigned i = 0; i < steps; ++i) {
      unsigned k; if (sym_param("few", 0)) { static const unsigned set[] = {4, 7, 9, 12, 13, 16, 17, 18, 19, 20, 21, 22}; k = set[sym_choose(12, "action")]; } else k = sym_choose(Builder::Kinds + 7, "action");
      if (broken && k != Builder::Kinds) continue; // a module whose reading failed is reset or destroyed
      if (k < Builder::Kinds) { b.act(k); if (!b.complete) wellFormed = false; continue; }
      switch (k - Builder::Kinds) {
      case 0: {
        Type t(&al); Constant c(&al); bool haveT = false, haveC = false; // what was known before is declared anew
        if (!broken) { for (Instruction &i : m->getTypesAndConstants()) { if (const Type *x = m->getTypeInfo(&i)) { t = *x; haveT = true; } if (const Constant *x = m->getConstantInfo(&i)) { c = *x; haveC = true; } } }
        m->reset(); b.forget(); empty(*m); wellFormed = true; broken = false; sym_cover("reset");
        auto declares = [&](Instruction *i) { for (Instruction &j : m->getTypesAndConstants()) if (&j == i) return true; return false; };
        if (haveC) { sym_assert(declares(m->addConstant(c)), "a reset module declares constants anew"); sym_assert(m->getTypeInstr(c.getType()) != nullptr, "a reset module declares types anew"); sym_cover("constant anew"); }
        if (haveT) sym_assert(declares(m->addType(t)), "a reset module declares types anew");
        break; }
      case 1: { unsigned f[1] = {sym_param("few", 0) ? 26 : sym_choose(35, "feature")}; g.scheme = 1; g.module(f, 1, true, 0x10300, 0); bool whole = sym_choose(2, "whole"); Source src(g.w, whole ? g.n : 5 + sym_choose(4, "cut") * 7); broken = !(whole ? m->readAndInit(src, gr) : m->read(src, gr)); b.forget(); wellFormed = false; sym_cover("read"); break; } // into a module that may hold something already
      case 2: { m->finalize(); s2.n = 0; m->write(s2); break; }
      case 3: { if (m->getFunctions().empty()) break; m->remove(&m->getFunctions().front(), nullptr); b.forget(); wellFormed = false; sym_cover("function removed"); break; }
      case 4: { if (m->getTypesAndConstants().empty()) break; Instruction *i = sym_choose(2) ? &m->getTypesAndConstants().front() : &m->getTypesAndConstants().back(); m->remove(i); wellFormed = false; sym_cover("declaration removed"); i = nullptr; goto end; }
      case 5: { Module x(stdrep::move(*m)); *m = stdrep::move(x); ownership(*m); sym_cover("moved there and back"); break; }
      case 6: { m->getNames(m->getTypesAndConstants().empty() ? nullptr : &m->getTypesAndConstants().front(), &al2); { List<Instruction *> u(&al2); if (!m->getTypesAndConstants().empty()) m->gatherUses(&m->getTypesAndConstants().front(), u, nullptr); } sym_assert(al2.used == 0, "queries give back what they take"); break; }
      }
    }
    if (wellFormed && sym_param("check", 1)) { s2.n = 0; bool ok = m->finalizeAndWrite(s2); sym_assert(ok, "the module can be written"); validate(s2.w, s2.n, m->getSpvVersion(), ins, 512); sym_observe(s2.n); sym_cover("written"); }
  end:
    m->~Module(); free(raw1);
  }
  sym_assert(al.used == 0 && al2.used == 0, "every block is given back");
}
