// X01: importing a library: what the linked module says of every imported symbol is what the library says, up to the numbers of ids.
#include "build.h"
#include "spvgentwo/Grammar.h"
#include "common/LinkerHelper.h"
namespace L = spvgentwo::LinkerHelper; using LO = L::LinkerOptionBits;
static AuditAllocatorT<16384> al; static Sink sl, sc, again; static Ins li[400], ci[400]; static unsigned ln, cn;
static unsigned toC[512], toL[512]; static unsigned work[512], works; // pairs of ids that stand for the same thing
static const Ins *def(const Ins *in, unsigned n, unsigned id) { for (unsigned i = 0; i < n; ++i) if (resultId(in[i]) == id) return &in[i]; return nullptr; }
static bool pair(unsigned l, unsigned c) { sym_assert(l < 512 && c < 512, "HARNESS: ids are small"); if (toC[l] == 0 && toL[c] == 0) { toC[l] = c; toL[c] = l; work[works++] = l; return true; } return toC[l] == c && toL[c] == l; }
static bool sameIns(const Ins &a, const Ins &b, bool initializer = true) {
  if (a.op != b.op || (a.n != b.n && initializer)) return false;
  bool ok = true; if (!operands(a, [&](char k, unsigned o) { if (o >= b.n) { ok = false; return; } if (k == 'i' || k == 't' || k == 'r') { if (ok) ok = pair(a.w[o], b.w[o]); } else ok &= a.w[o] == b.w[o]; })) return false;
  return ok;
}
static bool follow() { // compares the definitions of everything the pairs refer to
  while (works) {
    const unsigned l = work[--works]; const Ins *a = def(li, ln, l), *b = def(ci, cn, toC[l]); if (!a || !b) return false;
    if (a->op != 54) { if (!sameIns(*a, *b)) return false; continue; }
    for (;; ++a, ++b) { if (!sameIns(*a, *b)) return false; if (a->op == 56) break; }
  }
  return true;
}
static unsigned link(const Ins *in, unsigned n, unsigned id) { unsigned k = 0; for (unsigned i = 0; i < n; ++i) if (in[i].op == 71 && in[i].w[0] == id && in[i].w[1] == 41u) ++k; return k; }
static unsigned idOf(const Instruction *i) { return (unsigned)i->getResultId(); }
static Instruction *u(Module &m, unsigned v) { return m.constant(v); }
struct Lib { Instruction *v, *w; Function *f, *g, *h; unsigned bodyF; bool init; Instruction *s; };
static void library(Module &m, Lib &x) {
  m.addCapability(spv::Capability::Linkage); m.addCapability(spv::Capability::Shader); m.addExtension("SPV_x"); x.init = sym_choose(2, "initializer");
  x.v = x.init ? m.variable<unsigned>(spv::StorageClass::Private, 11u, "v") : m.variable<unsigned>(spv::StorageClass::Private, "v"); x.w = m.variable<float>(spv::StorageClass::Private, "w"); m.addDecorationInstr()->opDecorate(x.w, spv::Decoration::Location, sym_u32("location")); m.addCapability(spv::Capability::Int64); m.addExtension("SPV_y");
  const unsigned body = x.bodyF = sym_choose(sym_param("bodies", 14), "body"); const bool late = sym_choose(2, "order");
  auto helper = [&] { x.h = &m.addFunction<unsigned, unsigned>("h", spv::FunctionControlMask::Pure); BasicBlock &b = **x.h; Instruction *s = b->opLoad(x.v); b->opStore(x.v, x.h->getParameter(0)); b.returnValue(s); };
  auto other = [&] { x.g = &m.addFunction<unsigned, unsigned, unsigned>("g"); BasicBlock &b = **x.g; b.returnValue(b.Sub(x.g->getParameter(1), b.Add(x.g->getParameter(0), u(m, 3)))); };
  auto main = [&] {
    x.f = &m.addFunction<unsigned, unsigned>("f", spv::FunctionControlMask::Inline); BasicBlock &b = **x.f; Instruction *p = x.f->getParameter(0);
    switch (body) {
    case 0: b.returnValue(b.Add(p, u(m, 7))); break;
    case 1: { Instruction *s = b->opLoad(x.v); b.returnValue(b.Add(s, p)); } break;
    case 2: { Instruction *s = b->opLoad(x.w); b->opStore(x.w, s); b.returnValue(p); } break;
    case 3: if (x.h) b.returnValue(b->call(x.h, p)); else b.returnValue(p); break;
    case 4: b.returnValue(b->call(x.f, p)); break;
    case 5: { // a loop with a phi of a value that comes later
      BasicBlock &head = x.f->addBasicBlock("head"), &out = x.f->addBasicBlock(); b->opBranch(&head); Instruction *phi = head.addInstruction(); phi->setOperation(spv::Op::OpPhi); phi->addOperand(Operand(m.type<unsigned>())); phi->addOperand(Operand(InvalidId)); phi->addOperand(Operand(u(m, 0))); phi->addOperand(Operand(&b));
      Instruction *next = head.Add(phi, u(m, 1)); phi->addOperand(Operand(next)); phi->addOperand(Operand(&head)); Instruction *less = head->opULessThan(next, p); head->opLoopMerge(&out, &head, spv::LoopControlMask::MaskNone); head->opBranchConditional(less, &head, &out); out.returnValue(next); } break;
    case 6: { Instruction *set = m.addExtensionInstructionImport("GLSL.std.450"); Instruction *s = b->opLoad(x.w); Instruction *e = b.addInstruction(); e->setOperation(spv::Op::OpExtInst); e->addOperand(Operand(m.type<float>())); e->addOperand(Operand(InvalidId)); e->addOperand(Operand(set)); e->addOperand(Operand(literal_t{sym_u32("instruction")})); e->addOperand(Operand(s)); m.addName(e, "e"); b.returnValue(p); } break;
    case 7: if (x.g) b.returnValue(b->call(x.g, p, u(m, 2))); else b.returnValue(p); break;
    case 8: { Instruction *q = x.f->variable<unsigned>("local", nullptr); b->opStore(q, p); b.returnValue(b->opLoad(q)); m.addDecorationInstr()->opDecorate(q, spv::Decoration::RelaxedPrecision); } break;
    case 9: { Instruction *s = m.addSourceStringInstr()->opString("file"); b.addInstruction()->opLine(s, sym_u32("line"), 2u); b.returnValue(u(m, sym_param("sym", 0) ? 7 : 9)); } break;
    case 10: { // parts of a structure
      Type t(&al); t.Struct(); t.Member().UInt(32); Type &arr = t.Member(); arr.ArrayElement(4).Float(32); t.Member().VectorElement(3).UInt(16); Instruction *S = m.addType(t), *P = m.addType(t.wrapPointer(spv::StorageClass::Private)); x.s = m.variable(P, spv::StorageClass::Private, "s"); m.addName(S, "S"); m.addMemberName(S, "first", 0u); m.addMemberName(S, "third", 2u); m.addDecorationInstr()->opMemberDecorate(S, 1u, spv::Decoration::Offset, sym_u32("offset")); m.addDecorationInstr()->opMemberDecorate(S, 0u, spv::Decoration::Offset, 0u);
      Instruction *e = b->opAccessChain(x.s, 1u, 3u); b->opStore(e, b->opLoad(e)); b.returnValue(b->opLoad(b->opAccessChain(x.s, 0u))); } break;
    case 11: { // constants of all kinds
      const_vector_t<float, 2> v; v.data[0] = 2.f; v.data[1] = 5.f; Instruction *c = m.constant(v), *s = m.specConstant(9u); m.addDecorationInstr()->opDecorate(s, spv::Decoration::SpecId, sym_u32("spec id")); m.addName(s, "s"); Instruction *d = m.constant(0x123456789abcdefull); b->opCopyObject(d); b->opVectorExtractDynamic(c, p); b->opCopyObject(m.constant(true)); b->opCopyObject(m.constant(2.5)); b.returnValue(b.Add(p, s)); } break;
    case 12: { // an image
      Type t(&al); dyn_image_t im; im.dimension = spv::Dim::Cube; im.samplerAccess = SamplerImageAccess::Sampled; t.SampledImage(im); Instruction *P = m.addType(t.wrapPointer(spv::StorageClass::UniformConstant)); x.s = m.variable(P, spv::StorageClass::UniformConstant, "i"); m.addDecorationInstr()->opDecorate(x.s, spv::Decoration::Binding, sym_u32("binding")); m.addDecorationInstr()->opDecorate(x.s, spv::Decoration::DescriptorSet, 3u);
      b->opCopyObject(b->opLoad(x.s)); b.returnValue(p); } break;
    case 13: { // a switch, a selection and ends
      BasicBlock &one = x.f->addBasicBlock(), &two = x.f->addBasicBlock("two"), &out = x.f->addBasicBlock(); b->opSelectionMerge(&out, spv::SelectionControlMask::Flatten); Instruction *w = b.addInstruction(); w->setOperation(spv::Op::OpSwitch); w->addOperand(Operand(p)); w->addOperand(Operand(&out)); w->addOperand(Operand(literal_t{sym_u32("case")})); w->addOperand(Operand(&one)); w->addOperand(Operand(literal_t{3u})); w->addOperand(Operand(&two)); one->opUnreachable(); two->opBranch(&out); out.returnValue(p); } break;
    }
  };
  x.g = x.h = nullptr; x.s = nullptr; if (!late) { other(); helper(); } main(); if (late) { other(); helper(); }
  L::addLinkageDecoration(x.v, spv::LinkageType::Export, "sv"); auto ef = [&] { L::addLinkageDecoration(x.f->getFunction(), spv::LinkageType::Export, "sf"); }; auto eg = [&] { L::addLinkageDecoration(x.g->getFunction(), spv::LinkageType::Export, "sg"); }; if (late) { eg(); ef(); } else { ef(); eg(); }
}
extern "C" void harness_main(void) {
  static Module lib(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple), con(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); static Lib x; library(lib, x); lib.setSpvVersion(1, (unsigned char)sym_bits(3, "version"));
  con.addCapability(spv::Capability::Linkage); con.addCapability(spv::Capability::Shader); con.addExtension("SPV_own"); con.setSpvVersion(1, 3);
  // imports: not at all, as exported, of another type or kind, under an unknown name
  const unsigned kv = sym_choose(5, "variable"), kf = sym_choose(4, "function"), kg = sym_choose(sym_param("gs", 2), "other function"), own = sym_choose(2, "own export"); const bool before = sym_choose(2, "imports"); Instruction *v = nullptr; Function *f = nullptr, *g = nullptr;
  if (kv) v = kv == 2 ? con.variable<float>(spv::StorageClass::Private, "cv") : con.variable<unsigned>(spv::StorageClass::Private, "cv");
  if (kf) f = kf == 2 ? &con.addFunction<unsigned, float>("cf", spv::FunctionControlMask::MaskNone, false) : &con.addFunction<unsigned, unsigned>("cf", spv::FunctionControlMask::MaskNone, false);
  if (kg) g = kg == 2 ? &con.addFunction<unsigned, unsigned>("cg", spv::FunctionControlMask::MaskNone, false) : &con.addFunction<unsigned, unsigned, unsigned>("cg", spv::FunctionControlMask::MaskNone, false);
  auto iv = [&] { if (v) L::addLinkageDecoration(v, spv::LinkageType::Import, kv == 3 ? "s" : kv == 4 ? "sf" : "sv"); }; auto jf = [&] { if (f) L::addLinkageDecoration(f->getFunction(), spv::LinkageType::Import, kf == 3 ? "sff" : "sf"); }; auto jg = [&] { if (g) L::addLinkageDecoration(g->getFunction(), spv::LinkageType::Import, "sg"); };
  if (before) { jf(); iv(); jg(); } else { jg(); iv(); jf(); }
  Function &mine = con.addFunction<unsigned>("mine"); { BasicBlock &b = *mine; Instruction *r = u(con, 5); if (f && kf != 2) r = b->call(f, r); if (v && kv != 2) b->opStore(v, r); b.returnValue(r); } if (own) L::addLinkageDecoration(mine.getFunction(), spv::LinkageType::Export, "mine");
  if (own && x.bodyF == 10) { Type t(&al); t.Struct(); t.Member().UInt(32); Type &arr = t.Member(); arr.ArrayElement(4).Float(32); t.Member().VectorElement(3).UInt(16); Instruction *S = con.addType(t); con.addDecorationInstr()->opMemberDecorate(S, 0u, spv::Decoration::Offset, 0u); sym_cover("shared type"); } // the same structure, decorated already
  sym_assume(lib.finalizeAndWrite(sl)); ln = split(sl.w + 5, sl.n - 5, li, 400); sym_assert(ln != ~0u, "HARNESS: the library is one");
  const unsigned off = sym_choose(15 + 1, "option left out"); L::LinkerOptions o; o.flags = Flag<LO>((unsigned)LO::All & ~(off < 15 ? 1u << off : 0u)); o.allocator = &al;
  const bool ok = L::import(lib, con, o);
  // the library
  sym_assert(lib.write(again), "the library can still be written"); bool eq = again.n == sl.n; for (unsigned i = 0; i < sl.n && eq; ++i) eq = again.w[i] == sl.w[i]; sym_assert(eq, "the library is unchanged");
  // which symbols are there
  const bool rv = kv == 1, rf = kf == 1, rg = kg == 1, mismatch = kv == 2 || kv == 4 || kf == 2 || kg == 2; const bool missing = x.bodyF == 7 && x.g && rf && !kg; // calls another symbol, which was not asked for
  const bool all = off == 15 || off == 3 || off == 4 || (off >= 9 && off < 15) || off == 8; if (mismatch) sym_assert(!ok, "symbols of another type are reported");
  if (all && !mismatch) sym_assert(ok != missing || (missing && x.bodyF == 7), "imports with a matching export are resolved");
  if (all && !mismatch && !missing) { sym_assert(ok, "imports with a matching export are resolved"); }
  if (!all || missing || kg == 2) { sym_cover(ok ? "linked with less" : "reported"); if (!ok) return; }
  if (!con.finalizeAndWrite(sc)) { sym_assert(false, "the linked module can be written"); return; } cn = validate(sc.w, sc.n, sc.w[1], ci, 400);
  const unsigned lv = idOf(x.v), lf = idOf(x.f->getFunction()), lg = idOf(x.g->getFunction());
  if (v) sym_assert(link(ci, cn, idOf(v)) == (rv ? 0u : 1u), "resolved variables are no imports any more, others still are");
  if (f) sym_assert(link(ci, cn, idOf(f->getFunction())) == (rf ? 0u : 1u), "resolved functions are no imports any more, others still are");
  if (g) sym_assert(link(ci, cn, idOf(g->getFunction())) == (rg ? 0u : 1u), "resolved functions are no imports any more, others still are");
  works = 0; bool good = true; // before what they use, symbols
  if (rv) good &= pair(lv, idOf(v)); if (rf) good &= pair(lf, idOf(f->getFunction())); if (rg) good &= pair(lg, idOf(g->getFunction()));
  { // the name of a function's control is the importer's: it declares the function
    auto control = [&](unsigned l, unsigned c) { const Ins *a = def(li, ln, l), *b = def(ci, cn, c); if (a && b) const_cast<unsigned *>(a->w)[2] = b->w[2]; }; if (rf) control(lf, idOf(f->getFunction())); if (rg) control(lg, idOf(g->getFunction())); }
  sym_assert(good && follow(), "imported symbols are defined as in the library"); if (rv && x.init) sym_cover("initializer"); if (rf) sym_cover("function"); if (x.bodyF == 5 && rf) sym_cover("loop");
  // names and decorations of what came along
  for (unsigned i = 0; i < ln; ++i) if (li[i].op == 71 && li[i].w[1] != 41u && toC[li[i].w[0]] && off != 3) { unsigned k = 0; for (unsigned j = 0; j < cn; ++j) if (ci[j].op == 71 && ci[j].w[0] == toC[li[i].w[0]] && ci[j].n == li[i].n && ci[j].w[1] == li[i].w[1] && (li[i].n == 2 || ci[j].w[2] == li[i].w[2])) ++k; sym_assert(k == 1, "decorations come along, once"); sym_cover("decoration"); }
  for (unsigned i = 0; i < ln; ++i) if (li[i].op == 5 && toC[li[i].w[0]] && off != 4) { unsigned k = 0, same = 0; for (unsigned j = 0; j < cn; ++j) if (ci[j].op == 5 && ci[j].w[0] == toC[li[i].w[0]]) { ++k; same += ci[j].n == li[i].n && ci[j].w[1] == li[i].w[1]; } const unsigned l = li[i].w[0]; const bool named = l == lv || l == lf || l == lg; sym_assert(k == 1 && (named || same == 1), "names come along where there are none"); sym_cover("name"); }
  for (unsigned i = 0; i < ln; ++i) if ((li[i].op == 6 && off != 4) || (li[i].op == 72 && off != 3)) if (const unsigned c = toC[li[i].w[0]]) { unsigned k = 0; for (unsigned j = 0; j < cn; ++j) if (ci[j].op == li[i].op && ci[j].w[0] == c && ci[j].w[1] == li[i].w[1] && ci[j].n == li[i].n) { bool same = true; for (unsigned o = 2; o < ci[j].n; ++o) same &= ci[j].w[o] == li[i].w[o]; k += same; } sym_assert(k == 1, "names and decorations of members come along"); sym_cover("member"); }
  // functions of the importer stay what they were, and only what is needed is there
  if (mismatch) return;
  { bool c = false; unsigned xs = 0; for (unsigned j = 0; j < cn; ++j) { c |= ci[j].op == 17 && ci[j].w[0] == 11u; xs += ci[j].op == 10; } sym_assert(c && xs == 3, "capabilities and extensions come along"); }
  unsigned fs = 0; for (unsigned j = 0; j < cn; ++j) fs += ci[j].op == 54; unsigned expect = 1u + (f ? 1u : 0u) + (g ? 1u : 0u) + (rf && x.bodyF == 3 && x.h && toC[idOf(x.h->getFunction())] ? 1u : 0u); sym_assert(fs == expect, "no other functions are there");
  unsigned vs = 0; bool usesV = rf && (x.bodyF == 1 || (x.bodyF == 3 && toC[x.h ? idOf(x.h->getFunction()) : 0])), usesW = rf && (x.bodyF == 2 || x.bodyF == 6); for (unsigned j = 0; j < cn; ++j) vs += ci[j].op == 59 && ci[j].w[2] != 7u; sym_assert(vs == (v ? 1u : 0u) + (usesV && !rv ? 1u : 0u) + (usesW ? 1u : 0u) + (rf && x.s ? 1u : 0u), "no other variables are there");
  bool cap = false; for (unsigned j = 0; j < cn; ++j) cap |= ci[j].op == 17 && ci[j].w[0] == (unsigned)spv::Capability::Linkage; const bool open = (v && !rv) || (f && !rf) || (g && !rg); sym_assert(cap == (open || own || off == 9), "the linkage capability stays as long as something is imported or exported"); if (!cap) sym_cover("complete"); else sym_cover("open");
  sym_assert(sc.w[1] == (lib.getSpvVersion() > ((1u << 16) | (3u << 8)) ? lib.getSpvVersion() : ((1u << 16) | (3u << 8))), "the version is the higher one"); sym_cover("linked");
}
