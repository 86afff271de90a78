// R03: a module built through the API, written and read back with full reconstruction.
#include "consts.h"
struct Plain : IAllocator { void *allocate(sgt_size_t k, unsigned) override { return malloc(k); } void deallocate(void *p, sgt_size_t) override { free(p); } };
static Plain plain; static AuditAllocatorT<4096> al; static SinkT<2048> out, again; static Tk a, b, c;
static unsigned len(const char *s) { unsigned n = 0; while (s[n]) ++n; return n; }
static void sameText(const char *got, const char *want, const char *what) {
  sym_assert(got != nullptr, what); unsigned i = 0; for (; want[i]; ++i) { sym_assert(got[i] == want[i], what); if (got[i] == 0) return; } sym_assert(got[i] == 0, what);
}
static char text[4][12];
static const char *name(unsigned k, unsigned max) { // any text of up to max bytes
  unsigned n = sym_choose(max + 1, "name length"); for (unsigned i = 0; i < n; ++i) { text[k][i] = (char)sym_u8("character"); sym_assume(text[k][i] != 0); } text[k][n] = 0; return text[k];
}
static unsigned count(Module &m) { unsigned n = 0; m.iterateInstructions([&n](const Instruction &) { ++n; }); return n; }
struct Named { const Instruction *target; const char *text; unsigned member; };

extern "C" void harness_main(void) {
  static Grammar gr(&plain);
  const unsigned mode = sym_param("mode", 0), max = sym_param("name", 5);
  {
    Module m(&al); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::Simple);
    Instruction *types[2] = {}, *consts[2] = {}; unsigned nt = 0, nc = 0; Named nm[6]; unsigned nn = 0; EntryPoint *ep = nullptr; const char *epName = nullptr; Constant alone(&al);
    if (mode == 0) { // types
      TypeGen g; g.kinds = sym_param("kinds", 0x3ff); g.leaves = sym_param("leaves", 16); g.rich = sym_param("rich", 1); g.wide = sym_param("wide", 0); g.budget = sym_param("nodes", 4);
      Type t = m.newType(); g.gen(t, a, sym_param("depth", 1)); types[nt++] = m.addType(t); if (sym_param("two", 0)) { g.budget = 2; Type u = m.newType(); g.gen(u, b, 1); types[nt++] = m.addType(u); }
    } else if (mode == 1) { // constants
      ConstMaker g; g.wide = sym_param("wide", 1); g.few = sym_param("few", 0); const unsigned from = sym_param("from", 0), kinds = sym_param("kinds", ConstGen::Kinds);
      g.spec = sym_choose(2, "specialization"); g.made = &alone; consts[nc++] = g.make(m, a, from + sym_choose(kinds - from, "kind"));
      if (sym_param("two", 0)) { g.wide = 0; g.few = true; g.made = nullptr; g.spec = sym_choose(2, "specialization"); consts[nc++] = g.make(m, b, from + sym_choose(kinds - from, "kind")); }
    } else { // names
      auto on = [&](Instruction *i, const char *s, unsigned member = sgt_uint32_max) { nm[nn++] = {i, s, member}; };
      Instruction *u = m.type<unsigned>(); Instruction *v = m.variable<unsigned>(spv::StorageClass::Private, nullptr);
      unsigned what = sym_choose(8, "named");
      if (what == 0) { const char *s = name(0, max); consts[nc++] = m.constant(7u, false, s); on(consts[0], s); }
      if (what == 1) { const char *s = name(0, max); m.addName(v, s); on(v, s); const char *r = name(1, 2); m.addName(u, r); on(u, r); types[nt++] = u; }
      if (what == 2 || what == 3) { // members: any index
        Type t = m.newType(); t.Struct(); t.Member().UInt(); t.Member().Float(); const char *s = name(0, 1), *x = name(1, max), *y = name(2, 2);
        types[nt++] = m.addType(t, what == 2 ? s : nullptr); if (what == 2) on(types[0], s);
        unsigned i = sym_u32("member"), j = sym_u32("member"); sym_assume(i != j && i != ~0u && j != ~0u);
        m.addMemberName(types[0], x, i); on(types[0], x, i); m.addMemberName(types[0], y, j); on(types[0], y, j);
      }
      if (what == 4) { const char *s = name(0, max); Function &f = m.addFunction<void, unsigned>(s, spv::FunctionControlMask::MaskNone); (*f)->opReturn(); on(f.getFunction(), s); const char *q = name(1, 2); m.addName(f.getParameter(0), q); on(f.getParameter(0), q); }
      if (what == 5) { const char *s = name(0, max), *q = name(1, 2); Function &f = m.addFunction<void>("f", spv::FunctionControlMask::MaskNone); on(f.getFunction(), "f"); BasicBlock &e = f.addBasicBlock(s); (*f)->opBranch(&e); on(e.getLabel(), s); Instruction *l = f.variable<unsigned>(q, nullptr); on(l, q); e->opReturn(); }
      if (what == 6) { epName = name(0, max); sym_assume(epName[0] != 0); ep = &m.addEntryPoint(spv::ExecutionModel::Vertex, epName); (*ep)->opReturn(); }
      if (what == 7) { // the same object carries several names, another none
        const char *s = name(0, max), *x = name(1, max > 2 ? 2 : max); m.addName(v, s); m.addName(v, x); on(v, s);
      }
      for (unsigned i = 0; i < nn; ++i) sameText(m.getName(nm[i].target, nm[i].member), nm[i].text, "the module knows the names it was given");
      sym_assert(m.getName(u, 3) == nullptr, "what was not named has no name");
    }
    m.finalize(&gr);
    sym_assert(m.write(out), "the module can be written");
    Module r(&al); Source src(out.w, out.n);
    bool ok = r.readAndInit(src, gr);
    sym_assert(ok, "a module written by the library is read and reconstructed");
    if (!ok) return;
    const unsigned before = count(r);
    for (unsigned i = 0; i < nt; ++i) {
      Instruction *x = r.getInstructionById(types[i]->getResultId()); sym_assert(x != nullptr, "the declaration is found");
      const Type *t = r.getTypeInfo(x), *o = m.getTypeInfo(types[i]); sym_assert(t != nullptr && x->getType() == t, "the type is described");
      c.n = c.nodes = 0; tkOf(*t, c); if (mode == 0) sym_assert(tkSame(c, i ? b : a), "the type description survives");
      sym_assert(*t == *o, "the type description survives"); sym_assert(r.getTypeInstr(*o) == x, "looking the type up finds the existing declaration"); sym_assert(r.addType(*o) == x, "requesting the type again yields the existing declaration");
    }
    for (unsigned i = 0; i < nc; ++i) {
      Instruction *x = r.getInstructionById(consts[i]->getResultId()); sym_assert(x != nullptr, "the declaration is found");
      const Constant *k = r.getConstantInfo(x), *o = m.getConstantInfo(consts[i]); sym_assert(k != nullptr, "the constant is described");
      if (mode == 1) { c.n = c.nodes = 0; ckOf(*k, c); sym_assert(tkSame(c, i ? b : a), "the constant's value and type survive"); }
      const unsigned op = (unsigned)o->getOperation();
      if (op >= 41 && op <= 46) { bool plainParts = true; for (const Constant &p : o->getComponents()) if ((unsigned)p.getOperation() >= 48) plainParts = false;
        sym_assert(r.addConstant(*o) == x, "requesting the constant again yields the existing declaration"); sym_cover("unspecialized"); (void)plainParts; }
      else sym_cover("specialized");
    }
    for (unsigned i = 0; i < nn; ++i) {
      Instruction *x = r.getInstructionById(nm[i].target->getResultId()); sym_assert(x != nullptr, "the named object is found");
      sameText(r.getName(x, nm[i].member), nm[i].text, "the name survives"); sym_assert(x->getName() == nullptr || nm[i].member != sgt_uint32_max || len(x->getName()) == len(nm[i].text), "an instruction reports its name");
      sym_cover(nm[i].member != sgt_uint32_max ? "member" : "object");
    }
    if (mode == 2) sym_assert(r.getName(r.getInstructionById(m.type<unsigned>()->getResultId()), 3) == nullptr, "nothing gains a name");
    if (ep) { unsigned n = 0; for (EntryPoint &e : r.getEntryPoints()) { sameText(e.getName(), epName, "the entry point's name survives"); sym_assert(e.getExecutionModel() == spv::ExecutionModel::Vertex, "the execution model survives"); ++n; } sym_assert(n == 1, "one entry point"); sym_cover("entry point"); }
    sym_assert(count(r) == before, "looking up does not declare anything new");
    sym_assert(r.write(again) && again.n == out.n, "nothing is added");
    sym_observe(out.n); for (unsigned i = 0; i < out.n && i < 60; ++i) sym_observe(out.w[i]);
  }
  sym_assert(al.used == 0, "everything is released");
}
