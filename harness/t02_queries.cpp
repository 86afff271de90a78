// T02: queries of a type against its description; all widths, lengths and counts are symbolic.
#include "types.h"
struct Plain : IAllocator { void *allocate(sgt_size_t k, unsigned) override { return malloc(k); } void deallocate(void *p, sgt_size_t) override { free(p); } };
static AuditAllocatorT<4096> al; static Tk a, b, tmp; static unsigned base; // token index of the innermost first part
struct N { unsigned op, v, s, parts; const unsigned *sub; }; // one node: property v (width, count, ..), sign
static unsigned props(unsigned op) { switch (op) { case 21: return 2; case 22: case 23: case 24: case 28: case 32: case 38: return 1; case 25: return 7; default: return 0; } }
static N node(const unsigned *p) { N n; n.op = p[0]; unsigned k = props(n.op); n.v = k ? p[1] : 0; n.s = n.op == 21 ? p[2] : 0; n.parts = p[1 + k]; n.sub = p + 2 + k; return n; }
static const unsigned *skip(const unsigned *p) { N n = node(p); p = n.sub; for (unsigned i = 0; i < n.parts; ++i) p = skip(p); return p; }
static const unsigned *innermost(const unsigned *p) { N n = node(p); return n.parts ? innermost(n.sub) : p; }
static bool tokensAre(const Type &t, const unsigned *p) { tmp.n = tmp.nodes = 0; tkOf(t, tmp); return tkSame(tmp.t, tmp.n, p, (unsigned)(skip(p) - p)); }
static bool signOk(const N &in, Sign s) { return s == Sign::Any || (s == Sign::Signed) == (in.op == 21 && in.s); } // of the innermost type
static bool num(unsigned op) { return op == 21 || op == 22; }
static bool scalar(unsigned op) { return num(op) || op == 20; }
#define IS(q, want) do { bool x_ = (q), y_ = (want); sym_assert(x_ == y_, "query " #q); } while (0)

static void classify(const Type &t, const unsigned *p) {
  const N n = node(p), in = node(innermost(p)); const unsigned o = n.op;
  IS((unsigned)t.getType() == o, true); IS(t == (spv::Op)o, true);
  IS(t.isVoid(), o == 19); IS(t.isBool(), o == 20); IS(t.isPointer(), o == 32); IS(t.isStruct(), o == 30); IS(t.isArray(), o == 28); IS(t.isRuntimeArray(), o == 29);
  IS(t.isImage(), o == 25); IS(t.isSampler(), o == 26); IS(t.isSampledImage(), o == 27); IS(t.isVector(), o == 23); IS(t.isMatrix(), o == 24); IS(t.isFunction(), o == 33); IS(t.isForwardPointer(), false); IS(t.isOpaque(), false);
  IS(t.isEvent(), o == 34); IS(t.isDeviceEvent(), o == 35); IS(t.isReservedId(), o == 36); IS(t.isPipe(), o == 38); IS(t.isPipeStorage(), o == 322); IS(t.isQueue(), o == 37); IS(t.isRayQueryKHR(), o == 4472); IS(t.isAccelerationStructure(), o == 5341);
  IS(t.isNumerial(), num(o)); IS(t.isScalar(), scalar(o)); IS(t.isAggregate(), o == 30 || o == 28); IS(t.isComposite(), o == 30 || o == 28 || o == 23 || o == 24);
  const unsigned w = sym_u32("asked width"); const bool anyW = w == 0; static const Sign signs[] = {Sign::Any, Sign::Signed, Sign::Unsigned}; const Sign sg = signs[sym_choose(3, "asked sign")]; const spv::StorageClass sc = (spv::StorageClass)sym_u32("asked class");
  IS(t.isPointer(sc), o == 32 && n.v == (unsigned)sc);
  IS(t.isInt(w, sg), o == 21 && (anyW || n.v == w) && (sg == Sign::Any || (sg == Sign::Signed) == (n.s != 0)));
  IS(t.isUInt(w), o == 21 && !n.s && (anyW || n.v == w)); IS(t.isSInt(w), o == 21 && n.s && (anyW || n.v == w)); IS(t.isFloat(w), o == 22 && (anyW || n.v == w));
  IS(t.isI8(), o == 21 && n.v == 8); IS(t.isU8(), o == 21 && n.v == 8 && !n.s); IS(t.isS8(), o == 21 && n.v == 8 && n.s); IS(t.isI16(), o == 21 && n.v == 16); IS(t.isU16(), o == 21 && n.v == 16 && !n.s); IS(t.isS16(), o == 21 && n.v == 16 && n.s);
  IS(t.isI32(), o == 21 && n.v == 32); IS(t.isU32(), o == 21 && n.v == 32 && !n.s); IS(t.isS32(), o == 21 && n.v == 32 && n.s); IS(t.isI64(), o == 21 && n.v == 64); IS(t.isU64(), o == 21 && n.v == 64 && !n.s); IS(t.isS64(), o == 21 && n.v == 64 && n.s);
  IS(t.isF16(), o == 22 && n.v == 16); IS(t.isF32(), o == 22 && n.v == 32); IS(t.isF64(), o == 22 && n.v == 64);
  IS(t.hasSign(sg), signOk(in, sg)); IS(t.isSigned(), in.op == 21 && in.s); IS(t.isUnsigned(), in.op == 21 && !in.s);
  // vectors
  const N c = n.parts ? node(n.sub) : n; const bool vec = o == 23; const unsigned l = sym_u32("asked length"); const bool len = vec && (l == 0 || n.v == l), wid = vec && (w == 0 || (num(c.op) ? c.v == w : false));
  const bool numeric = vec && num(c.op);
  IS(t.isVectorOf(spv::Op::OpTypeInt, l, w, sg), len && c.op == 21 && wid && signOk(c, sg));
  IS(t.isVectorOf(spv::Op::OpTypeFloat, l, w), len && c.op == 22 && wid);
  IS(t.isVectorOf(spv::Op::OpTypeBool, l), len && c.op == 20);
  if (!vec || numeric) IS(t.isVectorOfLength(l, w, sg), len && wid && signOk(c, sg));
  IS(t.isVectorOfInt(l, w, sg), len && wid && c.op == 21 && signOk(c, sg)); IS(t.isVectorOfSInt(l, w), len && wid && c.op == 21 && c.s); IS(t.isVectorOfUInt(l, w), len && wid && c.op == 21 && !c.s);
  IS(t.isVectorOfFloat(l, w), len && wid && c.op == 22); IS(t.isVectorOfBool(l), len && c.op == 20);
  IS(t.isScalarOrVectorOf(spv::Op::OpTypeInt, l, w, sg), (o == 21 && (w == 0 || n.v == w) && signOk(n, sg)) || (len && wid && c.op == 21 && signOk(c, sg)));
  IS(t.isScalarOrVectorOf(spv::Op::OpTypeFloat, l, w), (o == 22 && (w == 0 || n.v == w)) || (len && wid && c.op == 22));
  IS(t.isNumericalScalarOrVector(l, w, sg), (num(o) && (w == 0 || n.v == w) && signOk(n, sg)) || (len && wid && num(c.op) && signOk(c, sg)));
  IS(t.getScalarOrVectorLength() == (scalar(o) ? 1 : vec ? n.v : 0), true);
  // matrices
  const bool mat = o == 24; const unsigned rows = sym_u32("asked rows");
  const bool mm = mat && (l == 0 || n.v == l) && (rows == 0 || c.v == rows) && (w == 0 || in.v == w);
  IS(t.isMatrixOf(spv::Op::OpTypeFloat, l, rows, w), mm && in.op == 22); IS(t.isMatrixOfFloat(l, rows, w), mm && in.op == 22); IS(t.isMatrixOfInt(l, rows, w, sg), mm && in.op == 21 && signOk(in, sg));
  IS(t.isSqareMatrix(), mat && n.v == c.v); IS(t.isSqareMatrixOf(spv::Op::OpTypeFloat), mat && n.v == c.v && in.op == 22);
  IS(t.getMatrixRowCount() == (mat ? c.v : 0), true);
  // base type
  IS(tokensAre(t.getBaseType(), innermost(p)), true); IS((unsigned)t.getBaseTypeOp() == in.op, true); IS(t.isBaseTypeOf(spv::Op::OpTypeFloat), in.op == 22);
  sym_cover(vec ? "vector" : mat ? "matrix" : scalar(o) ? "scalar" : "other");
}
static bool contains(const unsigned *p, unsigned op) { N n = node(p); if (n.op == op) return true; const unsigned *q = n.sub; for (unsigned i = 0; i < n.parts; ++i, q = skip(q)) if (contains(q, op)) return true; return false; }
static bool containsSame(const unsigned *p, const unsigned *o) { if (tkSame(p, (unsigned)(skip(p) - p), o, (unsigned)(skip(o) - o))) return true; N n = node(p); const unsigned *q = n.sub; for (unsigned i = 0; i < n.parts; ++i, q = skip(q)) if (containsSame(q, o)) return true; return false; }
static void compare(const Type &t, const unsigned *p, const Type &u, const unsigned *q) {
  const bool same = tkSame(p, (unsigned)(skip(p) - p), q, (unsigned)(skip(q) - q));
  IS(t == u, same); IS(t != u, !same); sym_cover(same ? "equal" : "unequal");
  const N n = node(p), m = node(q), ni = node(innermost(p)), mi = node(innermost(q));
  IS(t.hasSameBase(u, true), ni.op == mi.op); IS(t.hasSameBase(u), tkSame(innermost(p), 2 + props(ni.op), innermost(q), 2 + props(mi.op)));
  IS(t.containsType(u), containsSame(p, q)); IS(t.containsType((spv::Op)m.op), contains(p, m.op));
  IS(t.hasSameVectorLength(u), n.op == 23 && m.op == 23 && n.v == m.v); IS(t.hasSameVectorLength(u, spv::Op::OpTypeInt), n.op == 23 && m.op == 23 && n.v == m.v && node(n.sub).op == 21 && node(m.sub).op == 21);
  IS(t.hasSameComponentWidth(u), num(ni.op) && num(mi.op) && ni.v == mi.v);
  const bool sv = (n.op == 23 && m.op == 23 && n.v == m.v) || (scalar(n.op) && scalar(m.op));
  IS(t.isScalarOrVectorOfSameLength(u, false), sv); IS(t.isScalarOrVectorOfSameLength(spv::Op::OpTypeInt, u, false), sv && ni.op == 21 && mi.op == 21);
  if (num(ni.op) && num(mi.op)) IS(t.isScalarOrVectorOfSameLength(u), sv && ni.v == mi.v);
}
// a second type with the same description, built another way
static const unsigned *rebuild(Type &t, const unsigned *p) {
  N n = node(p); t.setType((spv::Op)n.op);
  switch (n.op) {
  case 21: t.setIntWidth(p[1]); t.setIntSign(p[2]); break;
  case 22: t.setFloatWidth(p[1]); break; case 23: t.setVectorComponentCount(p[1]); break; case 24: t.setMatrixColumnCount(p[1]); break; case 28: t.setArrayLength(p[1]); break;
  case 32: t.setStorageClass((spv::StorageClass)p[1]); break; case 38: t.setAccessQualifier((spv::AccessQualifier)p[1]); break;
  case 25: t.setImageDimension((spv::Dim)p[1]); t.setImageDepth(p[2]); t.setImageArray(p[3]); t.setImageMultiSampled(p[4]); t.setImageSamplerAccess((SamplerImageAccess)p[5]); t.setImageFormat((spv::ImageFormat)p[6]); t.setAccessQualifier((spv::AccessQualifier)p[7]); break;
  }
  p = n.sub; for (unsigned i = 0; i < n.parts; ++i) p = rebuild(t.Member(), p);
  return p;
}
static void twins(const Type &t, const unsigned *p) {
  Type u(&al); rebuild(u, p);
  IS(t == u, true); IS(u == t, true); IS(t != u, false); IS(tokensAre(u, p), true);
  sym_assert((sgt_uint64_t)hash<Type>(t) == (sgt_uint64_t)hash<Type>(u), "identical types have equal hashes");
}
// the part reached by index i, null when there is none
static const unsigned *step(const unsigned *p, unsigned i) {
  N n = node(p);
  switch (n.op) {
  case 23: case 24: case 28: return i < n.v ? n.sub : nullptr;
  case 29: return n.sub;
  default: { if (i >= n.parts) return nullptr; const unsigned *q = n.sub; while (i--) q = skip(q); return q; }
  }
}
static void navigate(const Type &t, const unsigned *p) {
  unsigned i = sym_u32("index"), j = sym_u32("index"), k = sym_u32("index"), depth = 1 + sym_choose(3, "depth");
  const unsigned *q = step(p, i); if (depth > 1 && q) q = step(q, j); if (depth > 2 && q) q = step(q, k);
  Type::Iterator it = depth == 1 ? t.getSubType(i) : depth == 2 ? t.getSubType(i, j) : t.getSubType(i, j, k);
  sym_assert((it != nullptr) == (q != nullptr), "navigation finds a part exactly when every index is inside its composite");
  if (q) { sym_assert(tokensAre(*it, q), "navigation reaches the addressed part"); sym_cover("reached"); } else sym_cover("absent");
  List<unsigned> l(&al); l.emplace_back(i); if (depth > 1) l.emplace_back(j); if (depth > 2) l.emplace_back(k);
  sym_assert(t.getSubType(l) == it, "a list of indices reaches the same part");
}
static void wrapping(Type &t, const unsigned *p) {
  unsigned c = sym_u32("count"), sz = (unsigned)(skip(p) - p); unsigned want[100]; unsigned n = 0; Type w(&al);
  auto put = [&](unsigned x) { want[n++] = x; };
  unsigned how = sym_choose(8, "wrap");
  switch (how) {
  case 0: w = t.wrapPointer((spv::StorageClass)c); put(32); put(c); break;
  case 1: w = t.wrapVector(c); put(23); put(c); break;
  case 2: w = t.wrapMatrix(c); put(24); put(c); break;
  case 3: w = t.wrapArray(c); put(28); put(c); break;
  case 4: w = t.wrapStruct(); put(30); break;
  case 5: w = t.wrap(spv::Op::OpTypeRuntimeArray); put(29); break;
  case 6: { Type copy(t); w = copy.moveWrap(spv::Op::OpTypeSampledImage); put(27); break; }
  case 7: { Type o(t); Type x(stdrep::move(o)); w = x; o = x; IS(tokensAre(o, p), true); x = w; x.reset(); IS(x == Type(&al) && x.isVoid() && x.getSubTypes().empty(), true); IS(tokensAre(w, p), true); IS(w == t, true); w = t; w.MemberM(&t); return; }
  }
  put(1); for (unsigned i = 0; i < sz; ++i) put(p[i]);
  IS(tokensAre(w, want), true); IS(w.front() == t, true); IS(w.getBaseType() == t.getBaseType(), true); IS(tokensAre(t, p), true);
  if (how < 2) { Type v = w.front(); IS(v == t, true); w = w.front(); IS(tokensAre(w, p), true); } // taking the inner type back
}
extern "C" void harness_main(void) {
  const unsigned depth = sym_param("depth", 1), mode = sym_param("mode", 0), leaves = sym_param("leaves", 16), nodes = sym_param("nodes", 4);
  TypeGen g; g.kinds = sym_param("kinds", 0x3ff); g.leaves = leaves; g.rich = true; g.full = true; g.budget = nodes;
  {
    Type t(&al); g.gen(t, a, depth);
    IS(tokensAre(t, a.t), true);
    if (mode == 0) classify(t, a.t);
    if (mode == 1) { g.budget = nodes; Type u(&al); g.gen(u, b, depth); compare(t, a.t, u, b.t); }
    if (mode == 2) navigate(t, a.t);
    if (mode == 4) twins(t, a.t);
    if (mode == 3) wrapping(t, a.t);
  }
  sym_assert(al.used == 0, "everything is released");
  sym_observe(a.n); for (unsigned i = 0; i < a.n; ++i) sym_observe(a.t[i]);
}
