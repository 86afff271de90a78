// I01: image operations. The image type of the target carries a symbolic dimension, arrayed, multisampled, sampled and format word, the coordinate any component width and count;
// what the operation takes and the type it yields is written from the SPIR-V specification.
#include "optypes.h"
struct Img { unsigned dim = 1, array = 0, ms = 0, access = 1, format = 0; Ty sampled; };
static Type *spot(Instruction *value) { return const_cast<Type *>(value->getType()); }
static void setImg(Type &t, const Img &g) { t.setImageDimension((spv::Dim)g.dim); t.setImageArray(g.array != 0); t.setImageMultiSampled(g.ms != 0); t.setImageSamplerAccess((SamplerImageAccess)g.access); t.setImageFormat((spv::ImageFormat)g.format); }
enum Target : unsigned { Image, Sampled, Value, NoType };
static Instruction *imageType, *sampledType;
static void declareImage(const Img &g) {
  Type t(&al); dyn_image_t d; d.dimension = spv::Dim::Rect; d.depth = 2; d.samplerAccess = SamplerImageAccess::Unknown; d.format = spv::ImageFormat::Rgba32f; // placeholder or the real thing
  d.sampledType = g.sampled.kind == Void ? DynScalarVoid : g.sampled.kind == Float ? dyn_scalar_t{spv::Op::OpTypeFloat, 32u} : dyn_scalar_t{spv::Op::OpTypeInt, 32u, g.sampled.kind == Sint};
  t.Image(d); imageType = mod->addType(t); Type s(&al); s.SampledImage(d); sampledType = mod->addType(s);
}
static const unsigned Dim1D = 0, Dim2D = 1, Dim3D = 2, Cube = 3, Rect = 4, Buffer = 5, Subpass = 6;
static unsigned plane(unsigned d) { return d == Dim1D || d == Buffer ? 1 : d == Dim2D || d == Rect || d == Subpass || d == Cube ? 2 : d == Dim3D ? 3 : 0; }
static unsigned channels(unsigned f) { static const char n[] = "044144223144221142211444122211444142221111"; return f < 42 ? n[f] - '0' : 0; } // components of the image formats in the order of the specification
static const unsigned Proj = 1, Int = 2, MustInt = 4, NoLayer = 8, Dref = 16, Comp = 32, OfSampled = 64, Scalar = 128, Lod = 256, Grad = 512;
struct Op { unsigned op, flags; };
static const Op table[] = {{87, OfSampled}, {88, OfSampled | Int | Lod}, {88, OfSampled | Int | Grad}, {89, OfSampled | Dref | Scalar}, {90, OfSampled | Dref | Scalar | Lod}, {90, OfSampled | Dref | Scalar | Grad}, {91, OfSampled | Proj}, {92, OfSampled | Proj | Lod}, {92, OfSampled | Proj | Grad},
  {93, OfSampled | Proj | Dref | Scalar}, {94, OfSampled | Proj | Dref | Scalar | Lod}, {94, OfSampled | Proj | Dref | Scalar | Grad}, {95, Int | MustInt}, {96, OfSampled | Comp}, {97, OfSampled | Dref}, {98, Int | MustInt}, {105, OfSampled | Int | NoLayer}, {99, Int | MustInt}};
static const unsigned Ops = sizeof(table) / sizeof(table[0]), Write = Ops - 1, QueryLod = Ops - 2;
typedef Flag<spv::ImageOperandsMask> Mask;
template <class... A> static Instruction *emit(unsigned k, Instruction *i, Instruction *img, Instruction *c, Instruction *x, Instruction *lod, Mask m, A... a) {
  switch (k) {
  case 0: return i->opImageSampleImplictLod(img, c, m, a...);
  case 1: return i->opImageSampleExplicitLodLevel(img, c, lod, m, a...);
  case 2: return i->opImageSampleExplicitLodGrad(img, c, lod, m, a...);
  case 3: return i->opImageSampleDrefImplictLod(img, c, x, m, a...);
  case 4: return i->opImageSampleDrefExplicitLodLevel(img, c, x, lod, m, a...);
  case 5: return i->opImageSampleDrefExplicitLodGrad(img, c, x, lod, m, a...);
  case 6: return i->opImageSampleProjImplictLod(img, c, m, a...);
  case 7: return i->opImageSampleProjExplicitLodLevel(img, c, lod, m, a...);
  case 8: return i->opImageSampleProjExplicitLodGrad(img, c, lod, m, a...);
  case 9: return i->opImageSampleProjDrefImplictLod(img, c, x, m, a...);
  case 10: return i->opImageSampleProjDrefExplicitLodLevel(img, c, x, lod, m, a...);
  case 11: return i->opImageSampleProjDrefExplicitLodGrad(img, c, x, lod, m, a...);
  case 12: return i->opImageFetch(img, c, m, a...);
  case 13: return i->opImageGather(img, c, x, m, a...);
  case 14: return i->opImageDrefGather(img, c, x, m, a...);
  case 15: return i->opImageRead(img, c, m, a...);
  case 16: return i->opImageQueryLod(img, c);
  default: return i->opImageWrite(img, c, x, m, a...);
  }
}
static Verdict coordinate(const Ty &c, const Img &g, unsigned flags) { // plane, layer and divisor
  const unsigned p = plane(g.dim); if (!p) return No;
  unsigned need = p + (g.dim == Cube ? 1 : 0); if (g.array && !(flags & NoLayer) && !(g.dim == Cube && flags & MustInt)) ++need; if (flags & Proj) ++need;
  if (!(isF(c) && !(flags & MustInt)) && !(isI(c) && flags & Int)) return No;
  if (c.n < need) return No;
  return c.width == 32 && c.n <= 4 ? Must : May;
}
static Verdict least(Verdict a, Verdict b) { return a < b ? a : b; }
static Verdict spec(unsigned k, Target t, const Img &g, const Ty &c, const Ty &x) {
  const unsigned f = table[k].flags; if (t != (f & OfSampled ? Sampled : Image)) return No;
  Verdict v = coordinate(c, g, f);
  if (f & Dref) v = least(v, isF(x) && x.n == 1 && x.width == 32 ? Must : No);
  if (f & Comp) v = least(v, isI(x) && x.n == 1 && x.width == 32 ? Must : No);
  if (table[k].op == 95) v = least(v, g.access != 1 || g.dim == Cube ? No : g.dim == Subpass ? May : Must);
  if (table[k].op == 98) v = least(v, g.access == 1 ? No : Must);
  if (table[k].op == 99) { const bool kind = g.sampled.kind == Void ? isF(x) || isI(x) : g.sampled.kind == Float ? isF(x) : isI(x); v = least(v, g.access == 1 || g.dim == Subpass || !kind ? No : (g.sampled.kind == Void || (x.width == 32 && x.kind == g.sampled.kind)) && x.n >= channels(g.format) ? Must : May); }
  if (f & Comp || table[k].op == 97) v = least(v, g.dim == Dim2D || g.dim == Cube || g.dim == Rect ? Must : No);
  // images the specification excludes which the library does not look at
  if (f & OfSampled) v = least(v, g.ms || g.dim == Buffer || g.dim == Subpass || g.access == 2 ? May : Must);
  if (f & Proj) v = least(v, g.dim == Cube || g.array ? May : Must);
  if (f & Dref) v = least(v, g.sampled.kind != Float || g.dim == Dim3D ? May : Must);
  if (g.access > 2) v = least(v, May);
  return v;
}
static Ty result(unsigned k, const Img &g) {
  Ty r = g.sampled; const bool any = r.kind == Void; if (any) { r.kind = Float; r.width = 32; }
  r.n = table[k].flags & Scalar ? 1 : 4; if (table[k].op == 98 && !any) { const unsigned n = channels(g.format); r.n = n ? n : 4; }
  if (k == QueryLod) { r.kind = Float; r.width = 32; r.n = 2; }
  return r;
}
static Instruction *target(Target t) { return t == Image ? undef(imageType) : t == Sampled ? undef(sampledType) : t == Value ? vals[0].i : bb->getLabel(); }
static Val second(const char *name, unsigned w) { // a depth reference, component or texel: of any component width and count, or no number at all
  if (sym_choose(2, name)) return wide("kind", w, true); Val v; v.i = bb->getLabel(); v.t.kind = None; return v; }
struct State { Instruction *i; unsigned before, block; };
static State start() { State s; s.i = bb->addInstruction(); s.before = declared(); s.block = inBlock(); return s; }
static bool refused(const State &s, Instruction *r, Verdict v) {
  const bool is = r->isErrorInstr(); if (v == No) { sym_assert(is, "an image, coordinate or operand the operation does not take is refused"); sym_cover("refused"); }
  if (v == Must) { sym_assert(!is, "what the operation takes is accepted"); sym_cover("accepted"); }
  if (is) { sym_assert(s.i->getOperation() == spv::Op::OpNop && s.i->empty() && r->getOperation() == spv::Op::OpNop && r->empty(), "a refused operation leaves no partial instruction"); sym_assert(declared() == s.before && inBlock() == s.block, "a refused operation adds nothing"); }
  else { sym_assert(r == s.i && inBlock() == s.block, "the operation is the one instruction it is called on"); }
  return is;
}
static void emitted(const State &s, unsigned op, Instruction *const *ops, unsigned n, bool isValue, const Ty &want) {
  sym_assert((unsigned)s.i->getOperation() == op, "the operation emits its opcode");
  if (isValue) { sym_assert(s.i->getResultIdOperand() != nullptr && same(typeOfResult(s.i), want), "the result has the type the image gives"); }
  else sym_assert(s.i->getResultIdOperand() == nullptr && s.i->getResultTypeOperand() == nullptr, "what writes has no result");
  auto it = s.i->getFirstActualOperand(); for (unsigned i = 0; i < n; ++i, ++it) { sym_assert(it != nullptr && it->isInstruction() && it->getInstruction() == ops[i], "operands are emitted in order"); }
}
static Img symbolicImage(bool concreteArray) {
  Img g; static const unsigned kinds[] = {Float, Sint, Uint, Void}; g.sampled.kind = kinds[sym_choose(4, "sampled type")]; g.sampled.width = g.sampled.kind == Void ? 0 : 32;
  declareImage(g); g.dim = sym_u32("dimension"); g.ms = sym_u32("multisampled") & 1; g.array = concreteArray ? sym_choose(2, "arrayed") : sym_u32("arrayed") & 1; g.access = sym_u32("sampled"); g.format = sym_u32("format"); return g;
}
static void apply(const Img &g) { setImg(*const_cast<Type *>(imageType->getType()), g); Type &s = *const_cast<Type *>(sampledType->getType()); setImg(s.front(), g); }
extern "C" void harness_main(void) {
  const unsigned mode = sym_param("mode", 0), full = sym_param("full", 0);
  Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); mod = &m; Function &f = m.addFunction<void>("f"); bb = &*f; value(Float, 32, 4);
  Val plain; // f32
  { Ty y; y.kind = Float; y.width = 32; plain.t = y; plain.i = undef(typeInstr(y)); }
  m.type<vector_t<float, 2>>(); m.type<unsigned>();
  if (mode == 0) { // any image, coordinate and reference
    const unsigned k = sym_choose(Ops, "operation"), fl = table[k].flags; Img g = symbolicImage(false); const bool x = fl & (Dref | Comp) || k == Write;
    const Target t = (Target)sym_choose(4, "target"), right = fl & OfSampled ? Sampled : Image; if (!full && t != right && g.sampled.kind != Float) return;
    Val c; if (!full && (t != right || (g.sampled.kind != Float && k != Write))) { c.t.kind = fl & MustInt ? Uint : Float; c.t.width = 32; c.t.n = 4; c.i = undef(typeInstr(c.t)); } else if (sym_choose(2, "coordinate")) c = wide("coordinate kind", 24, true); else { c.i = bb->getLabel(); c.t.kind = None; }
    Val o = plain; if (!full && x && t != right) { if (fl & Comp) { o.t.kind = Sint; o.i = undef(typeInstr(o.t)); } } else if (x) o = second("reference", 40);
    apply(g); Instruction *img = target(t);
    const State s = start(); const Verdict v = spec(k, t, g, c.t, o.t); Instruction *r = emit(k, s.i, img, c.i, x ? o.i : nullptr, plain.i, spv::ImageOperandsMask::MaskNone);
    if (refused(s, r, v)) return;
    Instruction *ops[3] = {img, c.i, o.i}; emitted(s, table[k].op, ops, x ? 3 : 2, k != Write, result(k, g));
    auto it = s.i->getFirstActualOperand(); for (unsigned i = 0; i < (x ? 3u : 2u); ++i) ++it;
    if (fl & (Lod | Grad)) { sym_assert(it != nullptr && it->isLiteral() && it->getLiteral().value == (fl & Lod ? 2u : 4u), "the level of detail is announced"); ++it; sym_assert(it != nullptr && it->isInstruction() && it->getInstruction() == plain.i, "the level of detail is emitted"); ++it; sym_cover("level of detail"); }
    sym_assert(it == nullptr, "nothing else is emitted");
  } else if (mode == 1) { // optional image operands: announced by their mask, in the given order, whatever they are
    const unsigned k = sym_choose(Ops, "operation"), fl = table[k].flags; if (k == QueryLod) return; Img g; g.sampled.kind = Float; g.sampled.width = 32; g.access = fl & OfSampled ? 1 : k == Write || table[k].op == 98 ? 2 : 1; declareImage(g); apply(g);
    Val c; c.t.kind = fl & MustInt ? Sint : Float; c.t.width = 32; c.t.n = 2 + (fl & Proj ? 1 : 0); c.i = undef(typeInstr(c.t)); Val o = plain; if (fl & Comp) { o.t.kind = Sint; o.i = undef(typeInstr(o.t)); }
    if (k == Write) o = vals[0]; const bool x = fl & (Dref | Comp) || k == Write; Instruction *img = target(fl & OfSampled ? Sampled : Image);
    Val extra[6] = {plain, vals[0], c, plain, plain, plain}; extra[3].i = m.constant(1u); extra[4].i = bb->getLabel(); Ty i2; i2.kind = Sint; i2.width = 32; i2.n = 2; extra[5].i = undef(typeInstr(i2));
    const unsigned mask = sym_u32("mask"); sym_assume(mask != 0 && (mask & ~0x17fffu) == 0); const unsigned n = sym_choose(3, "operands"); Instruction *a = extra[sym_choose(6, "first")].i, *b = n == 2 ? extra[sym_choose(6, "second")].i : nullptr; if (n == 0 && a != extra[0].i) return;
    const State s = start(); const Mask mk((spv::ImageOperandsMask)mask); Instruction *xi = x ? o.i : nullptr; Instruction *r = n == 0 ? emit(k, s.i, img, c.i, xi, plain.i, mk) : n == 1 ? emit(k, s.i, img, c.i, xi, plain.i, mk, a) : emit(k, s.i, img, c.i, xi, plain.i, mk, a, b);
    if (refused(s, r, May)) return; sym_cover("image operands");
    Instruction *ops[3] = {img, c.i, o.i}; emitted(s, table[k].op, ops, x ? 3 : 2, k != Write, result(k, g)); auto it = s.i->getFirstActualOperand(); for (unsigned i = 0; i < (x ? 3u : 2u); ++i) ++it;
    sym_assert(it != nullptr && it->isLiteral() && it->getLiteral().value == (mask | (fl & Lod ? 2u : 0u) | (fl & Grad ? 4u : 0u)), "image operands are announced by their mask"); ++it;
    Instruction *rest[3]; unsigned nr = 0; if (fl & (Lod | Grad)) rest[nr++] = plain.i; if (n > 0) rest[nr++] = a; if (n > 1) rest[nr++] = b;
    for (unsigned i = 0; i < nr; ++i, ++it) sym_assert(it != nullptr && it->isInstruction() && it->getInstruction() == rest[i], "image operands follow in order");
    sym_assert(it == nullptr, "nothing else is emitted");
  } else if (mode == 2) { // questions about images
    const unsigned k = sym_choose(7, "query"); Img g = symbolicImage(k == 3); const Target t = (Target)sym_choose(4, "target"); if (t >= Value && g.sampled.kind != Float) return; const bool lod = k == 2; Val l = plain; if (lod) l = second("lod", 40);
    apply(g); Instruction *img = target(t); const State s = start(); Instruction *r = nullptr; Ty want; want.kind = Uint; want.width = 32; Verdict v = No; unsigned op = 0; const bool img_ = t == Image, usual = g.dim <= Cube;
    switch (k) {
    case 0: r = s.i->opImageQueryFormat(img); op = 101; v = !img_ ? No : g.format == 0 ? Must : May; break;
    case 1: r = s.i->opImageQueryOrder(img); op = 102; v = !img_ ? No : g.format == 0 ? Must : May; break;
    case 2: r = s.i->opImageQuerySizeLod(img, l.i); op = 103; v = img_ && usual && !g.ms && isI(l.t) && l.t.n == 1 ? l.t.kind == Uint && l.t.width == 32 ? Must : May : No; want.n = plane(g.dim) + g.array; break;
    case 3: r = s.i->opImageQuerySize(img); op = 104; v = img_ && (g.dim == Rect || g.dim == Buffer || (usual && (g.ms || g.access != 1))) ? g.access > 2 ? May : Must : No; want.n = plane(g.dim) + g.array; break;
    case 4: r = s.i->opImageQueryLevels(img); op = 106; v = img_ && usual ? Must : No; break;
    case 5: r = s.i->opImageQuerySamples(img); op = 107; v = img_ && g.dim == Dim2D && g.ms ? Must : No; break;
    case 6: r = s.i->opImage(img); op = 100; v = t == Sampled ? Must : No; break;
    }
    if (refused(s, r, v)) return; Instruction *ops[2] = {img, l.i};
    if (k == 6) { sym_assert((unsigned)s.i->getOperation() == 100 && s.i->getResultTypeInstr() == imageType && s.i->getFirstActualOperand()->getInstruction() == img && s.i->size() == 3, "the image of a sampled image has the image type it was declared with"); return; }
    emitted(s, op, ops, lod ? 2 : 1, true, want); sym_assert(s.i->size() == (lod ? 4u : 3u), "nothing else is emitted"); sym_cover("queried");
  } else { // combining an image and a sampler
    Img g; static const unsigned kinds[] = {Float, Sint, Void}; g.sampled.kind = kinds[sym_choose(3, "sampled type")]; g.sampled.width = g.sampled.kind == Void ? 0 : 32;
    dyn_image_t d; d.sampledType = g.sampled.kind == Void ? DynScalarVoid : g.sampled.kind == Float ? dyn_scalar_t{spv::Op::OpTypeFloat, 32u} : dyn_scalar_t{spv::Op::OpTypeInt, 32u, true}; g.dim = sym_choose(7, "dimension"); g.access = sym_choose(3, "sampled"); g.array = sym_choose(2, "arrayed"); g.ms = sym_choose(2, "multisampled");
    d.dimension = (spv::Dim)g.dim; d.samplerAccess = (SamplerImageAccess)g.access; d.array = g.array; d.multiSampled = g.ms; d.format = sym_choose(2, "format") ? spv::ImageFormat::Rgba8 : spv::ImageFormat::Unknown;
    Type t(&al); t.Image(d); imageType = m.addType(t); Type si(&al); si.SampledImage(d); Type sa(&al); sa.Sampler(); Instruction *sampler = m.addType(sa); const bool there = sym_choose(2, "declared before"); sampledType = there ? m.addType(si) : nullptr;
    Instruction *vs[4] = {undef(imageType), undef(sampler), vals[0].i, bb->getLabel()}; Instruction *a = vs[sym_choose(4, "image")], *b = vs[sym_choose(4, "sampler")];
    const State s = start(); Instruction *r = s.i->opSampledImage(a, b); const Verdict v = a == vs[0] && b == vs[1] && g.access != 2 && g.dim != Subpass ? g.dim == Buffer ? May : Must : No;
    if (refused(s, r, v)) return; Instruction *rt = s.i->getResultTypeInstr(); sym_assert((unsigned)s.i->getOperation() == 86 && s.i->size() == 4 && s.i->getFirstActualOperand()->getInstruction() == a && s.i->getFirstActualOperand().next()->getInstruction() == b, "an image and a sampler are combined in order");
    sym_assert(rt && rt->getOperation() == spv::Op::OpTypeSampledImage && rt->getFirstActualOperand()->getInstruction() == imageType && (!there || rt == sampledType), "the combination is of the sampled image type of the image"); sym_cover("combined");
    State s2 = start(); Instruction *back = s2.i->opImage(s.i); sym_assert(back == s2.i && back->getResultTypeInstr() == imageType, "the image of a sampled image has the image type it was declared with");
  }
}
