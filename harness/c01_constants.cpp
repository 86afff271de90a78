// C01: one or two chosen constants declared in one module.
#include "consts.h"
static AuditAllocatorT<4096> al; static SinkT<2048> out; static Decls decls; static Tk a, b, c;
static void verify(Module &m, Instruction *i, const Tk &k) {
  const Constant *r = m.getConstantInfo(i); sym_assert(r != nullptr, "a constant has a description");
  c.n = c.nodes = 0; ckOf(*r, c); sym_assert(tkSame(c, k), "the recorded constant says what was requested");
  unsigned p = 0; sym_assert(ckIs(decls, (unsigned)i->getResultId(), k, p, 256) && p == k.n, "the declaration carries the type and the bits of its value, parts declared first and in order");
}
extern "C" void harness_main(void) {
  const unsigned second = sym_param("second", 1), kinds = sym_param("kinds", ConstGen::Kinds), from = sym_param("from", 0), other = sym_param("other", 0);
  {
    Module m(&al); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::Simple);
    ConstMaker g; g.wide = sym_param("wide", 1); g.few = sym_param("few", 0);
    g.spec = sym_choose(2, "specialization"); unsigned kind = from + sym_choose(kinds - from, "kind");
    Constant alone(&al); g.made = &alone;
    Instruction *x = g.make(m, a, kind), *y = nullptr;
    const bool null = kind == 11 || (kind >= 18 && kind <= 20), specX = g.spec && !null;
    c.n = c.nodes = 0; ckOf(alone, c); sym_assert(tkSame(c, a), "a constant describes the value it was made from");
    Instruction *again = m.addConstant(alone);
    if (!specX) sym_assert(again == x, "equal constants of one type share one declaration");
    if (second) {
      g.made = nullptr; g.spec = second == 2 ? g.spec : sym_choose(2, "specialization"); y = g.make(m, b, other ? from + sym_choose(kinds - from, "kind") : kind);
      bool same = tkSame(a, b);
      sym_cover(same ? "equal" : "different");
      if (!same) sym_assert(x != y, "constants differing in value, type or specialization are different declarations");
      else if (!specX) sym_assert(x == y, "equal constants of one type share one declaration");
    }
    m.assignIDs();
    sym_assert(m.write(out), "the module can be written");
    decls.read(out.w, out.n);
    verify(m, x, a); if (y) verify(m, y, b);
    // unspecialized constants are declared once
    for (unsigned i = 0; i < decls.n; ++i) { const Ins &p = decls.ins[i]; if (p.op < 41 || p.op > 46) continue; for (unsigned j = 0; j < i; ++j) { const Ins &q = decls.ins[j]; if (q.op != p.op || q.n != p.n || q.w[0] != p.w[0]) continue; unsigned d = 0; for (unsigned o = 2; o < p.n; ++o) d |= p.w[o] ^ q.w[o]; sym_assert(p.n > 2 ? d != 0 : false, "no constant is declared twice"); } }
    sym_observe(out.n); for (unsigned i = 0; i < out.n && i < 60; ++i) sym_observe(out.w[i]);
  }
  sym_assert(al.used == 0, "everything is released");
}
