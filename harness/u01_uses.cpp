// U01: the uses of every instruction of a module, its replacement and removal, and the removal of functions and blocks, compared with an enumeration of all operands made here.
#include "build.h"
#include "spvgentwo/Grammar.h"
struct Plain final : IAllocator { void *allocate(sgt_size_t n, unsigned = 1u) final { return malloc(n); } void deallocate(void *p, sgt_size_t) final { free(p); } }; static Plain plainAl;
static AuditAllocatorT<8192> al; static Sink s1; static Ins ins[512];
template <class F> static void walk(Module &m, F f) {
  for (auto &[k, i] : m.getCapabilities()) f(i);
  for (auto &[k, i] : m.getExtensions()) f(i);
  for (auto &[k, i] : m.getExtInstrImports()) f(i);
  f(m.getMemoryModel());
  for (EntryPoint &e : m.getEntryPoints()) f(*e.getEntryPoint());
  List<Instruction> *lists[] = {&m.getExecutionModes(), &m.getSourceStrings(), &m.getNames(), &m.getModulesProcessed(), &m.getDecorations(), &m.getTypesAndConstants(), &m.getGlobalVariables(), &m.getUndefs(), &m.getLines()}; for (List<Instruction> *l : lists) for (Instruction &i : *l) f(i);
  auto fn = [&](Function &x) { f(*x.getFunction()); for (Instruction &i : x.getParameters()) f(i); for (BasicBlock &b : x) { f(*b.getLabel()); for (Instruction &i : b) f(i); } f(*x.getFunctionEnd()); };
  for (Function &x : m.getFunctions()) fn(x);
  for (EntryPoint &x : m.getEntryPoints()) fn(x);
}
static bool same(const Constant &a, const Constant &b) {
  if (a.getOperation() != b.getOperation() || !(a.getType() == b.getType()) || a.getData().size() != b.getData().size() || a.getComponents().size() != b.getComponents().size()) return false;
  for (unsigned k = 0; k < a.getData().size(); ++k) if (a.getData()[k] != b.getData()[k]) return false;
  auto y = b.getComponents().begin(); for (const Constant &x : a.getComponents()) { if (!same(x, *y)) return false; ++y; }
  return true;
}
struct Op { unsigned kind = 0; const void *p = nullptr; unsigned w = 0; Op() = default; Op(const Instruction *i) : kind(1), p(i) {} Op(const BasicBlock *b) : kind(2), p(b) {}
  Op(const Operand &o) { if (o.isInstruction()) kind = 1, p = o.getInstruction(); else if (o.isBranchTarget()) kind = 2, p = o.getBranchTarget(); else if (o.isLiteral()) kind = 3, w = o.getLiteral().value; else kind = 4, w = (unsigned)o.getId(); }
  bool operator==(const Op &o) const { return kind == o.kind && p == o.p && w == o.w; } bool operator==(const Instruction *i) const { return kind == 1 && p == i; } bool operator==(const BasicBlock *b) const { return kind == 2 && p == b; } };
// all operands of the module before the operation
struct Rec { Instruction *i; unsigned op, first, n; bool inside; };
static Rec rec[512]; static unsigned recs; static Op opnd[2048]; static unsigned nops;
static void snapshot(Module &m) { recs = nops = 0; walk(m, [&](Instruction &i) { sym_assert(recs < 512 && nops + i.size() < 2048, "harness tables are large enough"); Rec &r = rec[recs++]; r.i = &i; r.op = (unsigned)i.getOperation(); r.first = nops; r.n = 0; r.inside = false; for (Operand &o : i) { opnd[nops++] = Op(o); ++r.n; } }); }
static bool refers(const Rec &r, const Instruction *i, const BasicBlock *b = nullptr) { for (unsigned k = 0; k < r.n; ++k) if (opnd[r.first + k] == i || (b && opnd[r.first + k] == b)) return true; return false; }
static unsigned count(const List<Instruction *> &l, const Instruction *i) { unsigned n = 0; for (Instruction *x : l) n += x == i; return n; }
// every remaining instruction is as before but for references to the victim, which are now references to `to`
static void redirected(Module &m, const Instruction *victim, const BasicBlock *vb, Op to, bool all) {
  unsigned k = 0;
  walk(m, [&](Instruction &i) {
    while (k < recs && rec[k].inside) ++k;
    sym_assert(k < recs && rec[k].i == &i && (unsigned)i.getOperation() == rec[k].op && i.size() == rec[k].n, "nothing but what was asked for is removed or changed");
    unsigned o = 0;
    for (Operand &y : i) { const Op x(y), &was = opnd[rec[k].first + o]; bool hit = (victim && was == victim) || (vb && was == vb);
      if (hit && all) sym_assert(x == to, "every reference is redirected"); else sym_assert(x == was, "other operands stay as they are"); ++o; }
    ++k;
  });
  while (k < recs && rec[k].inside) ++k;
  sym_assert(k == recs, "nothing but what was asked for is removed or changed");
}
static void lookups(Module &m, const Instruction *gone) {
  for (auto &[k, v] : m.getNameLookupMap()) sym_assert(k != gone, "a removed object has no name");
  sym_assert(m.getName(gone) == nullptr, "a removed object has no name");
}
static Builder *make(Module &m) { // a module with something of everything
  Builder *b = new (malloc(sizeof(Builder))) Builder(m); b->light = sym_param("light", 1);
  const unsigned K = sym_param("kind", 99);
  for (unsigned s = 0; s < sym_param("steps", 1); ++s) { unsigned k = K != 99 ? K : sym_choose(Builder::Kinds); if (k == 14) sym_assume(false); b->act(k); }
  return b;
}
static void uses(unsigned how) {
  {
    Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); make(m);
    if (sym_param("spec", 1)) { Instruction *a = m.specConstant(9u), *c = m.specConstant(9u); m.addName(a, "first"); m.addName(c, "second"); m.addDecorationInstr()->opDecorate(c, spv::Decoration::SpecId, sym_u32()); Function &f = m.addFunction<unsigned, unsigned>("user"); Instruction *p = f.getParameter(0); Instruction *x = (*f)->opIAdd(a, a); m.addName(x, "sum"); Instruction *y = (*f)->opIMul(c, p); Instruction *z = (*f)->opIAdd(x, y); (*f)->opReturnValue(z); }
    snapshot(m);
    unsigned v = sym_choose(recs); Instruction *victim = rec[v].i; const unsigned vop = rec[v].op;
    Instruction *other = how == 0 ? nullptr : rec[sym_choose(recs)].i; if (other == victim) sym_assume(false);
    List<Instruction *> l(&al);
    if (how == 2) m.replaceUses(victim, other); else m.gatherUses(victim, l, other);
    if (how < 2) { unsigned n = 0; for (unsigned k = 0; k < recs; ++k) { bool r = refers(rec[k], victim); n += r; sym_assert(count(l, rec[k].i) == (r ? 1u : 0u), "every instruction that refers to another one is reported once"); if (r) sym_cover("used"); } sym_assert(l.size() == n, "nothing else is reported"); }
    redirected(m, victim, nullptr, other ? Op(other) : Op(), how != 0);
    if (how == 1 && sym_choose(2)) { List<Instruction *> again(&al); m.gatherUses(victim, again); sym_assert(again.empty(), "nothing refers to a replaced instruction"); }
    sym_cover(other ? "replaced" : "gathered");
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
static void removal() {
  {
    Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); make(m);
    if (sym_param("spec", 1)) { Instruction *a = m.specConstant(9u), *c = m.specConstant(9u); m.addName(a, "first"); m.addName(c, "second"); Type t(&al); t.Struct(); t.Member().UInt(); t.Member().Float(); Instruction *st = m.addType(t, "S"); m.addMemberName(st, "u", 0u); m.addMemberName(st, "v", 1u); Function &f = m.addFunction<unsigned, unsigned>("user"); m.addName(f.getParameter(0), "param"); Instruction *x = (*f)->opIAdd(c, f.getParameter(0)); m.addName(x, "sum"); (*f)->opReturnValue(x); }
    snapshot(m);
    unsigned v = sym_choose(recs); Instruction *victim = rec[v].i; const unsigned vop = rec[v].op;
    // whoever used it is removed first: names by redirecting them to another object of the module
    Instruction *other = nullptr; for (unsigned k = 0; k < recs && !other; ++k) if (rec[k].op == vop && rec[k].i != victim) other = rec[k].i;
    if (!other) { other = m.type<void>(); if (other == victim) other = m.type<double>(); }
    m.replaceUses(victim, other); snapshot(m); v = 0; while (rec[v].i != victim) ++v;
    const Type *t = m.getTypeInfo(victim); const Constant *c = m.getConstantInfo(victim); Type T(&al); Constant C(&al); if (t) T = *t; if (c) C = *c;
    bool removable = !(vop == 14 || vop == 15 || vop == 54 || vop == 56 || vop == 248), type = t != nullptr, constant = c != nullptr;
    bool ok = m.remove(victim);
    sym_assert(ok == removable, "instructions are removed, but for those that make up functions, blocks and the module");
    rec[v].inside = ok; redirected(m, nullptr, nullptr, Op(), false);
    if (ok) {
      sym_cover("removed"); lookups(m, victim);
      if (type) { Instruction *now = m.getTypeInstr(T); sym_assert(now == nullptr, "a removed type is not found"); sym_cover("type removed");
        unsigned n = m.getTypesAndConstants().size(); Instruction *fresh = m.addType(T); bool in = false; for (Instruction &i : m.getTypesAndConstants()) in |= &i == fresh; sym_assert(in && m.getTypesAndConstants().size() > n, "a removed type is declared again"); sym_assert((unsigned)fresh->getOperation() == vop && m.getTypeInfo(fresh) && *m.getTypeInfo(fresh) == T, "a removed type is declared again"); sym_assert(m.addType(T) == fresh, "a type is declared once"); }
      if (constant) { sym_cover("constant removed");
        Instruction *rest = nullptr; for (Instruction &i : m.getTypesAndConstants()) if (const Constant *d = m.getConstantInfo(&i); d && same(*d, C)) rest = &i; if (rest) sym_cover("another equal constant");
        unsigned n = m.getTypesAndConstants().size(); Instruction *fresh = m.addConstant(C); bool in = false; for (Instruction &i : m.getTypesAndConstants()) in |= &i == fresh; sym_assert(in && m.getTypesAndConstants().size() > n, "a removed constant is declared again");
        sym_assert((unsigned)fresh->getOperation() == vop && m.getConstantInfo(fresh) && same(*m.getConstantInfo(fresh), C), "a removed constant is declared again"); }
      bool done = m.finalizeAndWrite(s1); if (!terminator(vop)) sym_assert(done, "the module can be written"); if (done && !terminator(vop)) validate(s1.w, s1.n, m.getSpvVersion(), ins, 512, false, true);
    } else sym_cover("refused");
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
static void inside(unsigned from, const Instruction *i) { for (unsigned k = 0; k < recs; ++k) if (rec[k].i == i) rec[k].inside = true; (void)from; }
// names and decorations of what goes away go away, too
static void annotations() { bool more[512]; for (unsigned k = 0; k < recs; ++k) { more[k] = false; unsigned op = rec[k].op; if ((op == 5 || op == 6 || op == 71 || op == 72) && rec[k].n) for (unsigned j = 0; j < recs; ++j) if (rec[j].inside && rec[j].op != 54 && opnd[rec[k].first] == rec[j].i) more[k] = true; } for (unsigned k = 0; k < recs; ++k) if (more[k]) rec[k].inside = true, sym_cover("annotation removed"); }
static void functions() {
  {
    Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); m.addCapability(spv::Capability::Shader); Instruction *one = m.constant(1u), *yes = m.constant(true);
    Function &f = m.addFunction<unsigned, unsigned>("f"), &g = m.addFunction<unsigned, unsigned>("g"); EntryPoint &e = m.addEntryPoint(spv::ExecutionModel::GLCompute, "main");
    Function *fs[] = {&f, &g, &e}; const unsigned names = sym_choose(4);
    auto fill = [&](Function &x, unsigned calls, bool value) {
      Instruction *p = value ? x.getParameter(0) : one; if (value && (names & 1)) m.addName(p, "param"); Instruction *s = (*x)->opIAdd(p, one); if (names & 1) m.addName(s, "sum"); if (names & 2) m.addDecorationInstr()->opDecorate(s, (spv::Decoration)0), m.addDecorationInstr()->opDecorate(one, (spv::Decoration)0);
      BasicBlock *bb = &*x; if (sym_param("shape", 1) && sym_choose(2)) { bb = &bb->If(yes, [&](BasicBlock &t) { Instruction *i = t->opIMul(s, s); if (names & 1) m.addName(i, "product"); }); sym_cover("blocks"); }
      for (unsigned k = 0; k < 2; ++k) if (calls >> k & 1) (*bb)->call(fs[k], s);
      if (value) (*bb)->opReturnValue(s); else (*bb)->opReturn();
    };
    fill(f, sym_u32(), true); fill(g, sym_u32(), true); fill(e, sym_u32(), false); // any set of calls
    if (sym_choose(2)) e.addExecutionMode(spv::ExecutionMode::LocalSize, sym_u32(), 1u, 1u), sym_cover("execution mode");
    const bool before = sym_choose(2); if (before) { sym_assert(m.finalizeAndWrite(s1), "the module can be written"); s1.n = 0; }
    unsigned which = sym_choose(3), rep = sym_choose(3); Function *victim = fs[which], *to = rep == which ? nullptr : rep == 2 ? nullptr : fs[rep]; if (rep == 2 && which != 2) sym_assume(false);
    snapshot(m); const Instruction *op = victim->getFunction();
    inside(0, op); inside(0, victim->getFunctionEnd()); for (Instruction &i : victim->getParameters()) inside(0, &i); for (BasicBlock &b : *victim) { inside(0, b.getLabel()); for (Instruction &i : b) inside(0, &i); } if (which == 2) inside(0, e.getEntryPoint());
    annotations();
    List<Instruction *> l = m.remove(victim, to);
    unsigned n = 0; for (unsigned k = 0; k < recs; ++k) { bool r = !rec[k].inside && refers(rec[k], op); n += r; sym_assert(count(l, rec[k].i) == (r ? 1u : 0u), "the instructions that used a removed function are reported"); if (r) sym_cover("used"); } sym_assert(l.size() == n, "nothing else is reported");
    redirected(m, op, nullptr, Op(to ? to->getFunction() : nullptr), true);
    for (unsigned k = 0; k < recs; ++k) if (rec[k].inside) lookups(m, rec[k].i);
    if (!to) for (Instruction *u : l) sym_assert(m.remove(u), "what used the function can be removed");
    sym_assert(m.finalizeAndWrite(s1), "the module can be written"); validate(s1.w, s1.n, m.getSpvVersion(), ins, 512); sym_cover(to ? "function replaced" : "function removed");
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
static void build4(Module &m) {
    m.addCapability(spv::Capability::Shader); Instruction *one = m.constant(1u), *yes = m.constant(true);
    Function &f = m.addFunction<void>("f"); BasicBlock *b[4] = {&*f, &f.addBasicBlock("one"), &f.addBasicBlock(), &f.addBasicBlock("three")}; const unsigned named = sym_choose(2), decorated = sym_param("ends", 3) == 3 ? sym_choose(2) : named;
    for (unsigned k = 0; k < 4; ++k) { Instruction *s = (*b[k])->opIAdd(one, one); if (named) m.addName(s, "sum"); if (decorated) m.addDecorationInstr()->opDecorate(s, (spv::Decoration)0); }
    auto pick = [&]() { return b[1 + sym_choose(3)]; };
    for (unsigned k = 0; k < 3; ++k) switch (k < sym_param("ends", 3) ? sym_choose(3) : 2) { case 0: (*b[k])->opBranch(pick()); break; case 1: { BasicBlock *t = pick(), *u = pick(); (*b[k])->opSelectionMerge(b[3], spv::SelectionControlMask::MaskNone); (*b[k])->opBranchConditional(yes, t, u); break; } case 2: (*b[k])->opReturn(); break; }
    if (sym_choose(2)) { Instruction *i = b[3]->addInstruction(); i->makeOp(spv::Op::OpPhi, m.type<unsigned>(), InvalidId, one, b[1], one, b[2]); sym_cover("phi"); }
    (*b[3])->opReturn();
}
static void blocks(Module &m) {
    Function &f = m.getFunctions().front(); BasicBlock *b[4]; unsigned q = 0; for (BasicBlock &x : f) b[q++] = &x;
    unsigned which = 1 + sym_choose(3), rep = sym_choose(4); BasicBlock *victim = b[which], *to = rep == which ? nullptr : b[rep];
    snapshot(m); const Instruction *label = victim->getLabel(); inside(0, label); for (Instruction &i : *victim) inside(0, &i); annotations();
    List<Instruction *> l = f.remove(victim, to);
    unsigned n = 0; for (unsigned k = 0; k < recs; ++k) { bool r = !rec[k].inside && refers(rec[k], label, victim); n += r; sym_assert(count(l, rec[k].i) == (r ? 1u : 0u), "the instructions that used a removed block are reported once"); if (r) sym_cover("used"); } sym_assert(l.size() == n, "nothing else is reported");
    redirected(m, label, victim, Op(to), true);
    for (unsigned k = 0; k < recs; ++k) if (rec[k].inside) lookups(m, rec[k].i);
    if (!to) { for (Instruction *u : l) sym_assert(m.remove(u), "what used the block can be removed"); for (BasicBlock &x : f) if (!x.getTerminator()) x->opUnreachable(); }
    sym_assert(m.finalizeAndWrite(s1), "the module can be written"); validate(s1.w, s1.n, m.getSpvVersion(), ins, 512, false, true); sym_cover(to ? "block replaced" : "block removed");
}
static void blocks() {
  {
    Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); build4(m); Module other(&al);
    if (!sym_param("read", 0)) { blocks(m); }
    else { static Grammar gr(&plainAl); sym_assert(m.finalizeAndWrite(s1), "the module can be written"); Source src(s1.w, s1.n); sym_assert(other.readAndInit(src, gr), "the module can be read"); s1.n = 0; blocks(other); sym_cover("read"); }
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
// equal declarations: specialization constants with the same value, types added by hand; removed one after the other in any order
static void shared() {
  {
    Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); Instruction *i[3]; const bool types = sym_choose(2);
    Type T(&al); T.UInt(); unsigned v[3];
    if (types) { for (unsigned k = 0; k < 3; ++k) { Type t(&al); t.UInt(); i[k] = m.addTypeInstr(&t); i[k]->makeOp(spv::Op::OpTypeInt, InvalidId, literal_t{32u}, literal_t{0u}); } sym_cover("types added by hand"); }
    else { unsigned how = sym_choose(2); for (unsigned k = 0; k < 3; ++k) { v[k] = sym_u32(); v[k] &= sym_param("mask", 1); Constant C(&al); C.make(v[k], true); if (how) { Constant c(&al); c.make(v[k], true); Instruction *u = m.type<unsigned>(); i[k] = m.addConstantInstr(&c); i[k]->makeOp(spv::Op::OpSpecConstant, u, InvalidId, literal_t{v[k]}); } else i[k] = m.addConstant(C); } if (v[0] == v[1] && v[1] == v[2]) sym_cover("all equal"); else if (v[0] == v[2]) sym_cover("two equal"); sym_cover(how ? "constants added by hand" : "spec constants"); }
    bool gone[3] = {false, false, false};
    for (unsigned n = 0; n < 3; ++n) {
      unsigned r = sym_choose(3); if (gone[r]) sym_assume(false);
      sym_assert(m.remove(i[r]), "a declaration can be removed"); gone[r] = true; lookups(m, i[r]);
      for (unsigned k = 0; k < 3; ++k) if (!gone[k]) { if (types) { const Type *t = m.getTypeInfo(i[k]); sym_assert(t && *t == T, "equal types that remain keep their information"); } else { Constant C(&al); C.make(v[k], true); const Constant *c = m.getConstantInfo(i[k]); sym_assert(c && same(*c, C), "equal constants that remain keep their information"); } }
      if (types) { Instruction *x = m.getTypeInstr(T); bool live = x == nullptr; for (unsigned k = 0; k < 3; ++k) live |= !gone[k] && i[k] == x; sym_assert(live, "types are found as long as one is declared"); sym_assert((x == nullptr) == (n == 2), "types are found as long as one is declared"); }
    }
    if (types) { Instruction *x = m.addType(T); bool in = false; for (Instruction &y : m.getTypesAndConstants()) in |= &y == x; sym_assert(in && m.getTypeInstr(T) == x, "a removed type is declared again"); }
    sym_cover("all removed");
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
extern "C" void harness_main() {
  switch (sym_param("mode", 0)) { case 0: uses(sym_param("how", 0)); break; case 1: removal(); break; case 2: functions(); break; case 3: blocks(); break; case 4: shared(); break; }
}
