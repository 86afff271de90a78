// O01/O02: operations on operands of every type combination. A table written from the SPIR-V specification says which operand types an operation takes, which opcode is emitted and which type
// the result has; where the specification is wider than the library (noted as "may") a refusal is accepted too.
#include "optypes.h"
static const unsigned O01 = 1, O02 = 2;
static unsigned which; // assertions of which property
#define P1(c, label) do { bool c_ = (c); if (which & O01) sym_assert(c_, label); else sym_assume(c_); } while (0)
#define P2(c, label) do { bool c_ = (c); if (which & O02) sym_assert(c_, label); else sym_assume(c_); } while (0)
// ---- the specification
enum Cl { FU, FD, FB, IU, IUS, BU, FF, FC, IB, IBU, IBS, IC, SH, BB, CARRY, SCARRY, CFU, CFS, CSF, CUF, SAT, ANY, DOT, OUTER, VTS, MTS, VTM, MTV, MTM, TRANSP, F32 };
typedef Instruction *(Instruction::*Bin)(Instruction *, Instruction *); typedef Instruction *(Instruction::*Un)(Instruction *);
struct BinOp { Bin f; unsigned op; Cl cl; }; struct UnOp { Un f; unsigned op; Cl cl; };
typedef Instruction I;
static const UnOp un[] = {
  {&I::opFNegate, 127, FU}, {&I::opDPdx, 207, FD}, {&I::opDPdy, 208, FD}, {&I::opFwidth, 209, FD}, {&I::opDPdxFine, 210, FD}, {&I::opDPdyFine, 211, FD}, {&I::opFwidthFine, 212, FD}, {&I::opDPdxCoarse, 213, FD}, {&I::opDPdyCoarse, 214, FD}, {&I::opFwidthCoarse, 215, FD},
  {&I::opIsNan, 156, FB}, {&I::opIsInf, 157, FB}, {&I::opIsFinite, 158, FB}, {&I::opIsNormal, 159, FB}, {&I::opSignBitSet, 160, FB},
  {&I::opNot, 200, IU}, {&I::opBitReverse, 204, IU}, {&I::opBitCount, 205, IU}, {&I::opSNegate, 126, IUS}, {&I::opLogicalNot, 168, BU},
  {&I::opConvertFToU, 109, CFU}, {&I::opConvertFToS, 110, CFS}, {&I::opConvertSToF, 111, CSF}, {&I::opConvertUToF, 112, CUF}, {&I::opSatConvertSToU, 118, SAT}, {&I::opSatConvertUToS, 119, SAT},
  {&I::opAny, 154, ANY}, {&I::opAll, 155, ANY}, {&I::opTranspose, 84, TRANSP}, {&I::opQuantizeToF16, 116, F32}};
static const BinOp bin[] = {
  {&I::opIAdd, 128, IB}, {&I::opFAdd, 129, FF}, {&I::opISub, 130, IB}, {&I::opFSub, 131, FF}, {&I::opIMul, 132, IB}, {&I::opFMul, 133, FF}, {&I::opUDiv, 134, IBU}, {&I::opSDiv, 135, IBS}, {&I::opFDiv, 136, FF}, {&I::opUMod, 137, IBU}, {&I::opSRem, 138, IBS}, {&I::opSMod, 139, IBS}, {&I::opFRem, 140, FF}, {&I::opFMod, 141, FF},
  {&I::opVectorTimesScalar, 142, VTS}, {&I::opMatrixTimesScalar, 143, MTS}, {&I::opVectorTimesMatrix, 144, VTM}, {&I::opMatrixTimesVector, 145, MTV}, {&I::opMatrixTimesMatrix, 146, MTM}, {&I::opOuterProduct, 147, OUTER}, {&I::opDot, 148, DOT},
  {&I::opIAddCarry, 149, CARRY}, {&I::opISubBorrow, 150, CARRY}, {&I::opUMulExtended, 151, CARRY}, {&I::OpSMulExtended, 152, SCARRY},
  {&I::opOrdered, 162, FC}, {&I::opUnordered, 163, FC}, {&I::opLogicalEqual, 164, BB}, {&I::opLogicalNotEqual, 165, BB}, {&I::opLogicalOr, 166, BB}, {&I::opLogicalAnd, 167, BB},
  {&I::opIEqual, 170, IC}, {&I::opINotEqual, 171, IC}, {&I::opUGreaterThan, 172, IC}, {&I::opSGreaterThan, 173, IC}, {&I::opUGreaterThanEqual, 174, IC}, {&I::opSGreaterThanEqual, 175, IC}, {&I::opULessThan, 176, IC}, {&I::opSLessThan, 177, IC}, {&I::opULessThanEqual, 178, IC}, {&I::opSLessThanEqual, 179, IC},
  {&I::opFOrdEqual, 180, FC}, {&I::opFUnordEqual, 181, FC}, {&I::opFOrdNotEqual, 182, FC}, {&I::opFUnordNotEqual, 183, FC}, {&I::opFOrdLessThan, 184, FC}, {&I::opFUnordLessThan, 185, FC}, {&I::opFOrdGreaterThan, 186, FC}, {&I::opFUnordGreaterThan, 187, FC}, {&I::opFOrdLessThanEqual, 188, FC}, {&I::opFUnordLessThanEqual, 189, FC}, {&I::opFOrdGreaterThanEqual, 190, FC}, {&I::opFUnordGreaterThanEqual, 191, FC},
  {&I::opShiftRightLogical, 194, SH}, {&I::opShiftRightArithmetic, 195, SH}, {&I::opShiftLeftLogical, 196, SH}, {&I::opBitwiseOr, 197, IB}, {&I::opBitwiseXor, 198, IB}, {&I::opBitwiseAnd, 199, IB}};
static const unsigned Uns = sizeof(un) / sizeof(un[0]), Bins = sizeof(bin) / sizeof(bin[0]);
static bool alike(const Ty &a, const Ty &b) { return a.width == b.width && a.n == b.n; }
static Verdict spec(Cl cl, const Ty &a, const Ty &b, Ty &r) {
  r = a; auto toBool = [&] { r.kind = Bool; r.width = 0; };
  auto v = [](bool x) { return x ? Must : No; };
  switch (cl) {
  case FU: return v(isF(a));
  case FD: return !isF(a) ? No : a.width == 32 ? Must : May;
  case FB: toBool(); return v(isF(a));
  case IU: case SAT: return v(isI(a));
  case IUS: r.kind = Sint; return !isI(a) ? No : a.kind == Sint ? Must : May;
  case BU: return v(isB(a));
  case CFU: r.kind = Uint; return v(isF(a));
  case CFS: r.kind = Sint; return v(isF(a));
  case CSF: r.kind = Float; return !isI(a) ? No : a.kind == Sint ? Must : May;
  case CUF: r.kind = Float; return !isI(a) ? No : a.kind == Uint ? Must : May;
  case ANY: r.n = 1; return v(isB(a) && a.n > 1);
  case TRANSP: r.n = a.cols; r.cols = a.n; return v(isM(a));
  case F32: return v(isF(a) && a.width == 32);
  case FF: return v(isF(a) && isF(b) && alike(a, b));
  case FC: toBool(); return v(isF(a) && isF(b) && alike(a, b));
  case IB: return v(isI(a) && isI(b) && alike(a, b));
  case IBU: return v(isI(a) && isI(b) && alike(a, b) && a.kind == Uint && b.kind == Uint);
  case IBS: r.kind = Sint; return v(isI(a) && isI(b) && alike(a, b));
  case IC: toBool(); return v(isI(a) && isI(b) && alike(a, b));
  case SH: return !isI(a) || !isI(b) || a.n != b.n ? No : a.width == b.width ? Must : May;
  case BB: return v(isB(a) && isB(b) && a.n == b.n);
  case CARRY: r.members = 2; return v(isI(a) && isI(b) && alike(a, b) && a.kind == Uint && b.kind == Uint);
  case SCARRY: r.members = 2; return !(isI(a) && isI(b) && alike(a, b) && a.kind == b.kind) ? No : a.kind == Sint ? Must : May;
  case VTS: return v(isF(a) && a.n > 1 && isF(b) && b.n == 1 && a.width == b.width);
  case MTS: return v(isM(a) && isF(b) && b.n == 1 && a.width == b.width);
  case VTM: r.n = b.cols; return v(isF(a) && a.n > 1 && isM(b) && a.width == b.width && a.n == b.n);
  case MTV: r.cols = 0; return v(isM(a) && isF(b) && b.n > 1 && a.width == b.width && a.cols == b.n);
  case MTM: r.cols = b.cols; return v(isM(a) && isM(b) && a.width == b.width && a.cols == b.n);
  case OUTER: r.cols = b.n; return v(isF(a) && isF(b) && a.n > 1 && b.n > 1 && a.width == b.width);
  case DOT: r.n = 1; return v(isF(a) && isF(b) && a.n > 1 && alike(a, b));
  }
  return No;
}
// the outcome of an operation built with `made`
static void check(Instruction *made, Instruction *res, unsigned op, Verdict v, const Ty &want, Instruction *const *ops, unsigned nops, unsigned before, unsigned block, const unsigned *lits = nullptr, unsigned nlits = 0) {
  const bool refused = res->isErrorInstr();
  if (v == No) { P2(refused, "operands of types the operation does not take are refused"); sym_cover("refused"); }
  if (v == Must) { P1(!refused, "operands of types the operation takes are accepted"); sym_cover("accepted"); }
  if (refused) {
    P2(made->getOperation() == spv::Op::OpNop && made->empty(), "a refused operation leaves no partial instruction");
    P2(declared() == before, "a refused operation declares nothing"); P2(inBlock() == block, "a refused operation adds no instructions");
    return;
  }
  P1(res == made, "the operation is emitted into the instruction it is called on");
  P1((unsigned)made->getOperation() == op, "the operation emits its opcode");
  P1(made->size() == 2 + nops + nlits && made->getResultIdOperand() != nullptr, "the operation has a result type, a result and its operands");
  auto it = made->getFirstActualOperand(); for (unsigned i = 0; i < nops; ++i, ++it) P1(it != nullptr && it->isInstruction() && it->getInstruction() == ops[i], "operands are emitted in order");
  for (unsigned i = 0; i < nlits; ++i, ++it) P1(it != nullptr && it->isLiteral() && it->getLiteral().value == lits[i], "literals are emitted in order");
  P1(same(typeOfResult(made), want), "the result type is the one the operand types give");
  P1(inBlock() == block, "the operation is one instruction");
}
static unsigned pickKind(const Ty &a, const Ty &b, int u, int s, int f, int bo) { // which concrete operation a generic comparison or arithmetic helper stands for
  if (a.kind > Float || b.kind > Float) return 0;
  if (a.kind == Float && b.kind == Float) return f; if (a.kind == Bool && b.kind == Bool) return bo;
  if ((a.kind == Uint || a.kind == Sint) && (b.kind == Uint || b.kind == Sint)) return a.kind == Uint && b.kind == Uint ? u : s;
  return 0;
}
static Cl classOf(unsigned op) { for (const BinOp &b : bin) if (b.op == op) return b.cl; return FU; }
static void generic(unsigned which_, const Val &a, const Val &b) {
  Instruction *i = bb->addInstruction(); const unsigned before = declared(), block = inBlock(); Instruction *r = nullptr; unsigned op = 0; Instruction *ops[2] = {a.i, b.i}; Ty want; Verdict v = No;
  const Ty &x = a.t, &y = b.t;
  switch (which_) {
  case 0: r = i->Add(a.i, b.i); op = pickKind(x, y, 128, 128, 129, 0); break;
  case 1: r = i->Sub(a.i, b.i); op = pickKind(x, y, 130, 130, 131, 0); break;
  case 2: r = i->Equal(a.i, b.i); op = pickKind(x, y, 170, 170, 180, 164); break;
  case 3: r = i->NotEqual(a.i, b.i); op = pickKind(x, y, 171, 171, 182, 165); break;
  case 4: r = i->Greater(a.i, b.i); op = pickKind(x, y, 172, 173, 186, 0); break;
  case 5: r = i->GreaterEqual(a.i, b.i); op = pickKind(x, y, 174, 175, 190, 0); break;
  case 6: r = i->Less(a.i, b.i); op = pickKind(x, y, 176, 177, 184, 0); break;
  case 7: r = i->LessEqual(a.i, b.i); op = pickKind(x, y, 178, 179, 188, 0); break;
  case 8: { // multiplication: the first kind of product that takes the operands, either order with a scalar
    r = i->Mul(a.i, b.i); static const unsigned tries[] = {132, 133, 142, 143, 144, 145, 146};
    for (unsigned t : tries) { Ty w; if (spec(classOf(t), x, y, w) == Must) { op = t; break; } if ((t == 142 || t == 143) && spec(classOf(t), y, x, w) == Must) { op = t; ops[0] = b.i; ops[1] = a.i; want = w; v = Must; break; } }
    break; }
  case 9: { r = i->Div(a.i, b.i); op = pickKind(x, y, 134, 135, 136, 0); Ty w;
    if (isF(x) && x.n > 1 && isF(y) && y.n == 1 && x.width == y.width) { // vector / scalar is vector * (1 / scalar)
      sym_cover("vector divided by scalar");
      if (r->isErrorInstr()) { P1(x.width == 16, "a vector can be divided by a scalar"); P2(i->getOperation() == spv::Op::OpNop && inBlock() == block, "a refused operation leaves no partial instruction"); return; }
      P1(inBlock() == block + 1 && r == &bb->back() && r != i, "the quotient is the last instruction");
      P1((unsigned)i->getOperation() == 136 && same(typeOfResult(i), y), "the reciprocal is computed"); auto it = i->getFirstActualOperand(); Instruction *one = it->getInstruction(); ++it;
      P1(it->getInstruction() == b.i && one && one->getOperation() == spv::Op::OpConstant && same(typeOfResult(one), y), "the reciprocal of the divisor is computed");
      unsigned k = 0, bits[2] = {0, 0}; for (auto c = one->getFirstActualOperand(); c != nullptr && k < 2; ++c) bits[k++] = c->getLiteral().value;
      P1(y.width == 32 ? k == 1 && bits[0] == 0x3f800000u : k == 2 && bits[0] == 0 && bits[1] == 0x3ff00000u, "the dividend is one");
      it = r->getFirstActualOperand(); P1((unsigned)r->getOperation() == 142 && it->getInstruction() == a.i && it.next()->getInstruction() == i && same(typeOfResult(r), x), "the vector is scaled by the reciprocal"); return;
    }
    Instruction *n = bb->addInstruction(); const unsigned d2 = declared(), b2 = inBlock(); Instruction *r2 = n->Div(a.i, b.i, false); // without that shortcut the outcome is the same
    const Verdict dv = op ? spec(classOf(op), x, y, w) : No; check(n, r2, op, dv, w, ops, 2, d2, b2); check(i, r, op, dv, w, ops, 2, before, block + 1); return; }
  default: break;
  }
  if (op && v == No) v = spec(classOf(op), x, y, want);
  check(i, r, op, v, want, ops, 2, before, block);
}
static void makeValues(Module &m, unsigned set) {
  static const unsigned k[] = {Bool, Sint, Uint, Float};
  if (set == 3) { for (unsigned x : k) value(x, x == Bool ? 0 : 32, 1); for (unsigned x : k) value(x, x == Bool ? 0 : 32, 3); value(Sint, 64, 1); value(Float, 64, 3); value(Uint, 32, 2); value(Float, 32, 2, 3); }
  else {
  for (unsigned n = 1; n <= 4; ++n) { if (n == 4 && set < 2) continue; for (unsigned x : k) value(x, x == Bool ? 0 : 32, n); if (n != 3) { value(Sint, 64, n); value(Uint, 64, n); value(Float, 64, n); } if (n == 1 || set >= 2) { value(Float, 16, n); value(Sint, 16, n); value(Uint, 8, n); } }
  value(Float, 32, 2, 2); value(Float, 32, 3, 2); value(Float, 32, 2, 3); value(Float, 64, 2, 3); if (set >= 1) { value(Float, 32, 3, 3); value(Float, 64, 3, 2); value(Float, 64, 2, 2); } if (set >= 2) { value(Float, 32, 4, 2); value(Float, 32, 2, 4); value(Float, 32, 4, 3); value(Float, 32, 3, 4); value(Float, 32, 4, 4); }
  }
  Type s(&al); s.Struct(); s.Member().UInt(32); other(Struct, undef(m.addType(s))); Type f(&al); f.Struct(); f.Member().Float(32); other(Struct, undef(m.addType(f)));
  Type r(&al); r.ArrayElement(2).Float(32); other(Array, undef(m.addType(r))); Type p(&al); p.Pointer(spv::StorageClass::Function); p.Member().UInt(32); other(Ptr, undef(m.addType(p))); Type q(&al); q.Pointer(spv::StorageClass::Function); q.Member().Float(32); other(Ptr, undef(m.addType(q)));
  other(None, m.getErrorInstr()); other(None, bb->getLabel());
}
// operations with their own interface: conversions, bit fields, selection, copies, pointers, merges of values
static unsigned bits(const Ty &t) { return t.width * t.n; }
static const Val &any(const char *n) { return vals[sym_choose(nvals, n)]; }
static void special(unsigned k, unsigned set) {
  Instruction *i = nullptr, *r = nullptr; unsigned before = 0, block = 0; Ty want; Verdict v = No; Instruction *ops[4]; unsigned n = 0, op = 0;
  auto start = [&] { i = bb->addInstruction(); before = declared(); block = inBlock(); };
  auto done = [&] { check(i, r, op, v, want, ops, n, before, block); };
  static const unsigned widths[] = {8, 16, 32, 64};
  switch (k) {
  case 0: case 1: case 2: { // width conversions
    const Val &a = any("operand"); const unsigned w = widths[sym_choose(4, "width")]; want = a.t; want.width = w; ops[n++] = a.i;
    start();
    if (k == 0) { op = 113; r = i->opUConvert(a.i, w); want.kind = Uint; v = !isI(a.t) || a.t.width == w ? No : a.t.kind == Uint ? Must : May; }
    if (k == 1) { op = 114; r = i->opSConvert(a.i, w); want.kind = Sint; v = !isI(a.t) || a.t.width == w ? No : a.t.kind == Sint ? Must : May; }
    if (k == 2) { op = 115; r = i->opFConvert(a.i, w); v = isF(a.t) && a.t.width != w ? Must : No; }
    if (!r->isErrorInstr()) before = declared(); done(); return; }
  case 3: { // pointers to integers and back: only physical pointers
    static const spv::StorageClass sc[] = {spv::StorageClass::PhysicalStorageBuffer, spv::StorageClass::Function}; const spv::StorageClass c = sc[sym_choose(2, "class")];
    Type p(&al); p.Pointer(c); p.Member().UInt(32); Instruction *pt = mod->addType(p);
    if (sym_choose(2, "direction")) { const bool ptr = sym_choose(2, "pointer operand"); Instruction *o = ptr ? undef(pt) : any("operand").i; const unsigned w = widths[sym_choose(4, "width")]; want.kind = Uint; want.width = w; ops[n++] = o; op = 117; start(); r = i->opConvertPtrToU(o, w); v = ptr && c == sc[0] ? Must : No; }
    else { const Val &a = any("operand"); const bool ptr = sym_choose(2, "pointer result"); Instruction *t = ptr ? pt : typeInstr(vals[1].t); want.kind = Ptr; ops[n++] = a.i; op = 120; start(); r = i->opConvertUToPtr(t, a.i); v = ptr && c == sc[0] && isI(a.t) && a.t.n == 1 && a.t.kind == Uint ? Must : No; }
    if (!r->isErrorInstr()) before = declared(); done(); return; }
  case 4: { const Val &a = any("operand"), &t = any("result type"); if (t.t.kind == None) return; Instruction *ti = t.i->getResultTypeInstr(); want = t.t; op = 124; ops[n++] = a.i; // reinterpretation
    const bool sameType = a.t.kind != None && a.i->getResultTypeInstr() == ti, nums = (isI(a.t) || isF(a.t)) && (isI(t.t) || isF(t.t)), ap = a.t.kind == Ptr, tp = t.t.kind == Ptr;
    v = sameType ? No : ap && tp ? Must : nums ? (bits(a.t) == bits(t.t) ? Must : No) : (ap && isI(t.t)) || (tp && isI(a.t)) ? May : No; start(); r = i->opBitcast(ti, a.i); done(); return; }
  case 5: case 6: case 7: { // bit fields
    const Val &b = any("base"), &o = any("offset"), &c = any("count"); if (set < 2 && o.t.n > 2) return; ops[n++] = b.i; bool ok = isI(b.t); want = b.t;
    const bool oc = isI(o.t) && o.t.n == 1 && isI(c.t) && c.t.n == 1; if (!oc && c.i != o.i && isI(o.t) && o.t.n == 1 && !(c.t.kind == None || c.t.n > 1 || c.t.kind == Float)) return;
    Instruction *ins = b.i; if (k == 5) { const unsigned other = sym_choose(3, "insert"); ins = other == 0 ? b.i : other == 1 ? vals[1].i : vals[nvals - 1].i; ok = ok && (ins == b.i || (other == 1 && b.i->getResultTypeInstr() == ins->getResultTypeInstr())); ops[n++] = ins; }
    ops[n++] = o.i; ops[n++] = c.i; v = ok && oc ? Must : No; op = 196 + k; start(); r = k == 5 ? i->opBitFieldInsert(b.i, ins, o.i, c.i) : k == 6 ? i->opBitFieldSExtract(b.i, o.i, c.i) : i->opBitFieldUExtract(b.i, o.i, c.i); done(); return; }
  case 8: { const Val &c = any("condition"), &a = any("first"), &b = any("second"); const bool eq = a.t.kind != None && b.t.kind != None && a.i->getResultTypeInstr() == b.i->getResultTypeInstr(); if (!eq && c.t.kind != Bool) return; // selection
    const bool vec = sv(a.t) && a.t.n > 1, scalar = sv(a.t) && a.t.n == 1, composite = vec || isM(a.t) || a.t.kind == Struct || a.t.kind == Array;
    v = !eq || !isB(c.t) ? No : c.t.n == 1 ? (scalar || composite || a.t.kind == Ptr ? Must : No) : vec && a.t.n == c.t.n ? Must : No;
    want = a.t; op = 169; ops[n++] = c.i; ops[n++] = a.i; ops[n++] = b.i; start(); const unsigned version = mod->getSpvVersion(); r = i->opSelect(c.i, a.i, b.i); done();
    if (!r->isErrorInstr()) { const bool late = c.t.n == 1 && composite; P1(mod->getSpvVersion() == (late && version < makeVersion(1, 4) ? makeVersion(1, 4) : version), "selections that need version 1.4 raise the version"); } else P2(mod->getSpvVersion() == version, "a refused operation requires nothing"); return; }
  case 9: { const Val &a = any("operand"); v = a.t.kind == None ? No : Must; want = a.t; op = 83; ops[n++] = a.i; start(); r = i->opCopyObject(a.i); done(); return; }
  case 10: { const Val &a = any("left"), &b = any("right"); const bool ne = sym_choose(2, "unequal"); v = a.t.kind == Ptr && b.t.kind == Ptr && a.i->getResultTypeInstr() == b.i->getResultTypeInstr() ? Must : No; want.kind = Bool; op = ne ? 402 : 401; ops[n++] = a.i; ops[n++] = b.i; start(); r = ne ? i->opPtrNotEqual(a.i, b.i) : i->opPtrEqual(a.i, b.i); if (!r->isErrorInstr()) before = declared(); done(); return; }
  case 11: { const Val &a = any("vector"), &x = any("index"); v = sv(a.t) && a.t.n > 1 && isI(x.t) && x.t.n == 1 ? Must : No; want = a.t; want.n = 1; op = 77; ops[n++] = a.i; ops[n++] = x.i; start(); r = i->opVectorExtractDynamic(a.i, x.i); done(); return; }
  case 12: { const Val &a = any("vector"), &c = any("component"), &x = any("index"); if (x.t.kind != Sint && x.t.kind != Uint && c.i != vals[0].i) return; Ty e = a.t; e.n = 1; v = sv(a.t) && a.t.n > 1 && same(e, c.t) && isI(x.t) && x.t.n == 1 ? Must : No; want = a.t; op = 78; ops[n++] = a.i; ops[n++] = c.i; ops[n++] = x.i; start(); r = i->opVectorInsertDynamic(a.i, c.i, x.i); done(); return; }
  case 13: { const Val &a = any("operand"); v = a.t.kind == Ptr ? Must : No; want.kind = Uint; want.width = 32; op = 321; ops[n++] = a.i; start(); r = i->opSizeOf(a.i); if (!r->isErrorInstr()) before = declared(); done(); return; }
  case 14: { const Val &a = any("operand"); Instruction *t = sym_choose(2, "type") && a.t.kind != None ? a.i->getResultTypeInstr() : a.i; v = t != a.i ? Must : No; want = a.t; op = 1; start(); r = i->opUndef(t); done(); return; }
  case 15: case 16: { // merging values of several blocks
    const Val &a = any("first"), &b = any("second"); if (a.t.kind == None || b.t.kind == None) return; Function &f = *bb->getFunction(); const unsigned where = sym_choose(3, "where"); // 0: both in blocks, 1: the second at module level, 2: the first
    BasicBlock *x = &f.addBasicBlock(), *y = &f.addBasicBlock(); Instruction *p = where == 2 ? a.i : (*x)->opCopyObject(a.i), *q = where == 1 ? b.i : (*y)->opCopyObject(b.i); BasicBlock *bp = x, *bq = y;
    v = where == 0 && a.i->getResultTypeInstr() == b.i->getResultTypeInstr() ? Must : No; start(); want = a.t;
    if (k == 15) r = i->opPhi(p, q); else { List<Instruction *> l(&al); l.emplace_back(p); l.emplace_back(q); r = i->opPhiDynamic(l); }
    if (v == No) { P2(r->isErrorInstr(), "operands of types the operation does not take are refused"); P2(i->getOperation() == spv::Op::OpNop && i->empty(), "a refused operation leaves no partial instruction"); sym_cover("refused"); return; }
    P1(r == i && i->getOperation() == spv::Op::OpPhi && same(typeOfResult(i), want) && i->size() == 6, "values of several blocks are merged with their blocks");
    auto it = i->getFirstActualOperand(); Instruction *const vs[2] = {p, q}; BasicBlock *const bs[2] = {bp, bq};
    for (unsigned j = 0; j < 2; ++j) { P1(it->isInstruction() && it->getInstruction() == vs[j], "values of several blocks are merged with their blocks"); ++it; P1(it->isBranchTarget() && it->getBranchTarget() == bs[j], "values of several blocks are merged with their blocks"); ++it; } sym_cover("merged"); return; }
  case 17: { const Val &a = any("value"); Type rt(&al); const Ty &y = vals[sym_choose(4, "return type")].t; setType(rt, y); Function &g = mod->addFunction(); g.setReturnType(mod->addType(rt)); g.finalize(spv::FunctionControlMask::MaskNone, "g"); g.addBasicBlock(); BasicBlock *old = bb; bb = &*g; start(); i->opReturnValue(a.i);
    if (a.t.kind != None && same(a.t, y)) { P1(i->getOperation() == spv::Op::OpReturnValue && i->size() == 1 && i->front().getInstruction() == a.i, "a value of the function's type is returned"); sym_cover("accepted"); } else { P2(i->getOperation() == spv::Op::OpNop && i->empty(), "a value of another type is not returned"); sym_cover("refused"); } bb = old; return; }
  default: return;
  }
}
extern "C" void harness_main(void) {
  which = sym_param("which", O01 | O02); const unsigned mode = sym_param("mode", 0), set = sym_param("set", 0);
  Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); mod = &m;
  Function &f = m.addFunction<void>("f"); bb = &*f; if (set < 9) makeValues(m, set);
  if (mode == 0) { // one operand
    const UnOp &o = un[sym_choose(Uns, "operation")]; const Val &a = vals[sym_choose(nvals, "operand")];
    Instruction *i = bb->addInstruction(); const unsigned before = declared(), block = inBlock(); Ty w; Verdict v = spec(o.cl, a.t, a.t, w); Instruction *r = (i->*o.f)(a.i); check(i, r, o.op, v, w, &a.i, 1, before, block);
  } else if (mode == 1) { // two operands
    const BinOp &o = bin[sym_choose(Bins, "operation")]; const Val &a = vals[sym_choose(nvals, "left operand")], &b = vals[sym_choose(nvals, "right operand")];
    Instruction *i = bb->addInstruction(); const unsigned before = declared(), block = inBlock(); Ty w; Verdict v = spec(o.cl, a.t, b.t, w); Instruction *r = (i->*o.f)(a.i, b.i); Instruction *ops[2] = {a.i, b.i}; check(i, r, o.op, v, w, ops, 2, before, block);
  } else if (mode == 4) { // the bare instruction with its type left open: the type is the one the operand types give
    const bool two = sym_choose(2, "operands"); const unsigned c = two ? sym_choose(Bins, "operation") : sym_choose(Uns, "operation"), op = two ? bin[c].op : un[c].op; const Val &a = any("left operand"), &b = two ? any("right operand") : a; Ty w; const Verdict v = two ? spec(bin[c].cl, a.t, b.t, w) : spec(un[c].cl, a.t, a.t, w);
    if (v != Must || op == 116) return; Instruction *i = bb->addInstruction(); const unsigned block = inBlock(); Instruction *r = two ? i->makeOp((spv::Op)op, InvalidInstr, InvalidId, a.i, b.i) : i->makeOp((spv::Op)op, InvalidInstr, InvalidId, a.i); Instruction *ops[2] = {a.i, b.i}; check(i, r, op, v, w, ops, two ? 2 : 1, declared(), block);
  } else if (mode == 6) { // operations on constants as specialization constants
    const bool two = sym_choose(2, "operands"); const unsigned c = two ? sym_choose(Bins, "operation") : sym_choose(Uns, "operation"), op = two ? bin[c].op : un[c].op; const Val &a = any("left operand"), &b = two ? any("right operand") : a; Ty w; const Verdict v = two ? spec(bin[c].cl, a.t, b.t, w) : spec(un[c].cl, a.t, a.t, w);
    if (v == May) return; const bool call = v == No && sym_choose(2, "nothing to turn"); Instruction *i = m.addConstantInstr(); Instruction *r = call ? (i->opNop(), i->toSpecOp()) : (two ? (i->*bin[c].f)(a.i, b.i) : (i->*un[c].f)(a.i))->toSpecOp();
    if (v == No) { P2(r->isErrorInstr() && r->getOperation() == spv::Op::OpNop && r->empty() && i->getOperation() == spv::Op::OpNop && i->empty(), "what was refused does not become a specialization constant"); Instruction *n = bb->addInstruction(); P2(n->opLogicalNot(r)->isErrorInstr() && n->empty(), "a refused operation is refused as an operand"); sym_cover("refused"); return; }
    P1(r == i && i->getOperation() == spv::Op::OpSpecConstantOp && i->size() == (two ? 5 : 4) && same(typeOfResult(i), w) && i->getResultIdOperand() != nullptr, "an operation on constants becomes a specialization constant of its type");
    auto it = i->getFirstActualOperand(); P1(it->isLiteral() && it->getLiteral().value == op, "a specialization constant names its operation"); ++it; P1(it->isInstruction() && it->getInstruction() == a.i, "a specialization constant keeps the operands"); if (two) { ++it; P1(it->isInstruction() && it->getInstruction() == b.i, "a specialization constant keeps the operands"); }
    P1(i->isSpecConstant(), "a specialization constant is a constant"); sym_cover("specialization constant");
  } else if (mode == 3) { const unsigned mask = sym_param("kinds", 1), k = sym_choose(18, "kind"); if (mask >> k & 1) special(k, set); }
  else if (mode == 5) { // two operands of any component widths and counts
    static const unsigned some[] = {0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 13, 14, 27, 28, 29, 30, 53, 54, 55, 56, 57, 58, 25, 31, 35, 43, 20}, free_ = 22; const unsigned c = sym_choose(sizeof(some) / sizeof(some[0]), "operation"); const BinOp &o = bin[some[c]];
    const Val a = wide("left kind", 101, c < free_), b = wide("right kind", 102, c < free_);
    Instruction *i = bb->addInstruction(); const unsigned before = declared(), block = inBlock(); Ty w; Verdict v = spec(o.cl, a.t, b.t, w); Instruction *r = (i->*o.f)(a.i, b.i); Instruction *ops[2] = {a.i, b.i}; check(i, r, o.op, v, w, ops, 2, before, block);
  } else if (mode == 2) { // helpers that choose the operation
    unsigned k = sym_choose(11, "helper"); const Val &a = vals[sym_choose(nvals, "left operand")];
    if (k < 10) generic(k, a, vals[sym_choose(nvals, "right operand")]);
    else { Instruction *i = bb->addInstruction(); const unsigned before = declared(), block = inBlock(); Ty w; unsigned op = isI(a.t) ? 200 : 168; Verdict v = spec(isI(a.t) ? IU : BU, a.t, a.t, w); Instruction *r = i->Not(a.i); check(i, r, op, v, w, &a.i, 1, before, block); }
  }
}
