// Types by independent description: a preorder token string [opcode, properties.., number of parts, parts..] built alongside the library's Type.
#pragma once
#include "oracle.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
using namespace spvgentwo;
struct Tk { unsigned t[96]; unsigned n = 0; unsigned at[32], len[32], nodes = 0; // every subtree's place
  void put(unsigned x) { sym_assert(n < 96, "harness buffer"); t[n++] = x; } };
inline bool tkSame(const unsigned *a, unsigned n, const unsigned *b, unsigned m) { if (n != m) return false; unsigned d = 0; for (unsigned i = 0; i < n; ++i) d |= a[i] ^ b[i]; return d == 0; }
inline bool tkSame(const Tk &a, const Tk &b) { return tkSame(a.t, a.n, b.t, b.n); }

// what a Type object says about itself, property by property
inline void tkOf(const Type &t, Tk &k) {
  unsigned at = k.n, me = k.nodes++; unsigned op = (unsigned)t.getType(); k.put(op);
  switch (t.getType()) {
  case spv::Op::OpTypeInt: k.put(t.getIntWidth()); k.put(t.getIntSign()); break;
  case spv::Op::OpTypeFloat: k.put(t.getFloatWidth()); break;
  case spv::Op::OpTypeVector: k.put(t.getVectorComponentCount()); break;
  case spv::Op::OpTypeMatrix: k.put(t.getMatrixColumnCount()); break;
  case spv::Op::OpTypeArray: k.put(t.getArrayLength()); break;
  case spv::Op::OpTypePointer: k.put((unsigned)t.getStorageClass()); break;
  case spv::Op::OpTypePipe: k.put((unsigned)t.getAccessQualifier()); break;
  case spv::Op::OpTypeImage: k.put((unsigned)t.getImageDimension()); k.put(t.getImageDepth()); k.put(t.getImageArray()); k.put(t.getImageMultiSampled()); k.put((unsigned)t.getImageSamplerAccess()); k.put((unsigned)t.getImageFormat()); k.put((unsigned)t.getAccessQualifier()); break;
  default: break;
  }
  unsigned c = 0; for (const Type &s : t) { (void)s; ++c; } k.put(c);
  for (const Type &s : t) tkOf(s, k);
  k.at[me] = at; k.len[me] = k.n - at;
}
// Builds a chosen type through the run-time interface of Type and its description.
struct TypeGen {
  unsigned kinds = ~0u;   // which kinds may be chosen
  unsigned budget = 8;    // nodes
  unsigned leaves = 8;    // kinds of leaves
  bool rich = false;      // all properties, not just two of each
  unsigned pick(unsigned all, unsigned few) { return sym_choose(rich ? all : few, "property"); }
  bool full = false;      // every number is an arbitrary word
  unsigned wide = 0;      // as many of the next numbers are symbolic instead of chosen from a set
  unsigned num(const unsigned *set, unsigned all, unsigned few) { if (full) return sym_u32("number"); if (wide) { --wide; return 1 + sym_u8("number"); } return set[pick(all, few)]; }
  static constexpr unsigned Leaves = 16;
  void leaf(Type &t, Tk &k, unsigned c) {
    static const unsigned iw[] = {32, 64, 8, 16}, fw[] = {32, 64, 16};
    switch (c) {
    case 0: { unsigned w = num(iw, 4, 1); bool s = sym_choose(2); if (s) t.Int(w); else t.UInt(w); k.put(21); k.put(w); k.put(s); break; }
    case 1: { unsigned w = num(fw, 3, 1); t.Float(w); k.put(22); k.put(w); break; }
    case 2: t.Bool(); k.put(20); break;
    case 3: t.Void(); k.put(19); break;
    case 4: t.Sampler(); k.put(26); break;
    case 5: t.Event(); k.put(34); break;
    case 6: t.DeviceEvent(); k.put(35); break;
    case 7: t.ReserveId(); k.put(36); break;
    case 8: t.Queue(); k.put(37); break;
    case 9: t.PipeStorage(); k.put(322); break;
    case 10: t.NamedBarrier(); k.put(327); break;
    case 11: t.RayQueryKHR(); k.put(4472); break;
    case 12: t.AccelerationStructureKHR(); k.put(5341); break;
    case 13: { unsigned a = sym_choose(3); t.Pipe(); t.setAccessQualifier((spv::AccessQualifier)a); k.put(38); k.put(a); break; }
    case 14: { unsigned w = num(fw, 3, 1); t.Scalar(spv::Op::OpTypeFloat, w, false); k.put(22); k.put(w); break; }
    case 15: { dyn_scalar_t d; d.baseType = spv::Op::OpTypeInt; d.bits = num(iw, 4, 1); d.sign = sym_choose(2); t.Scalar(d); k.put(21); k.put(d.bits); k.put(d.sign); break; }
    }
    k.put(0);
  }
  void gen(Type &t, Tk &k, unsigned depth) {
    unsigned at = k.n, me = k.nodes++; if (budget) --budget;
    node(t, k, depth);
    k.at[me] = at; k.len[me] = k.n - at;
  }
  void node(Type &t, Tk &k, unsigned depth) {
    static const unsigned sc[] = {(unsigned)spv::StorageClass::Function, (unsigned)spv::StorageClass::Uniform, (unsigned)spv::StorageClass::Generic}, ln[] = {2, 3, 4, 16}, al[] = {1, 7, 32, 64};
    unsigned c = 0;
    if (depth && budget) { unsigned have[16], n = 0; for (unsigned i = 0; i < 10; ++i) if (kinds & 1u << i) have[n++] = i; c = have[sym_choose(n, "kind")]; }
    switch (c) {
    case 0: leaf(t, k, sym_choose(leaves, "leaf")); return;
    case 1: { unsigned n = num(ln, 4, 2); k.put(23); k.put(n); k.put(1); Type &e = t.VectorElement(n); sub(e, k, 0); return; }
    case 2: { unsigned n = num(ln, 3, 2), r = num(ln, 3, 2); k.put(24); k.put(n); k.put(1); Type &col = t.MatrixColumn(n); unsigned at = k.n, me = k.nodes++; col.setVectorComponentCount(r); k.put(23); k.put(r); k.put(1); sub(col.Member(), k, 0); k.at[me] = at; k.len[me] = k.n - at; return; }
    case 3: { unsigned n = num(al, 4, 2); k.put(28); k.put(n); k.put(1); sub(t.ArrayElement(n), k, depth - 1); return; }
    case 4: k.put(29); k.put(1); sub(t.RuntimeArrayElement(), k, depth - 1); return;
    case 5: { unsigned n = sym_choose(3, "members"); t.Struct(); k.put(30); k.put(n); for (unsigned i = 0; i < n; ++i) sub(t.Member(), k, depth - 1); return; }
    case 6: { unsigned s = num(sc, 3, 2); t.Pointer((spv::StorageClass)s); k.put(32); k.put(s); k.put(1); sub(t.Member(), k, depth - 1); return; }
    case 7: { unsigned n = 1 + sym_choose(2, "parameters"); t.Function(); k.put(33); k.put(n); for (unsigned i = 0; i < n; ++i) sub(t.Member(), k, depth - 1); return; }
    case 8: image(t, k); return;
    case 9: { k.put(27); k.put(1); Type im = t.New(); unsigned at = k.n, me = k.nodes++; image(im, k); k.at[me] = at; k.len[me] = k.n - at; t.SampledImage(&im); return; }
    }
  }
  void sub(Type &t, Tk &k, unsigned depth) { gen(t, k, depth); }
  void image(Type &t, Tk &k) {
    dyn_image_t d; static const unsigned fmt[] = {0, 1, 6, 21};
    // one property after the other leaves its default (all combinations would only multiply the paths)
    unsigned which = sym_choose(rich ? 8 : 3, "image property");
    if (which == 0) d.sampledType.bits = 64;
    if (which == 1) d.dimension = (spv::Dim)sym_choose(rich ? 7 : 2);
    if (which == 2) d.accessQualifier = (spv::AccessQualifier)sym_choose(3);
    if (which == 3) d.depth = sym_choose(3);
    if (which == 4) d.array = true;
    if (which == 5) d.multiSampled = true;
    if (which == 6) d.samplerAccess = (SamplerImageAccess)sym_choose(3);
    if (which == 7) d.format = (spv::ImageFormat)fmt[sym_choose(4)];
    t.Image(d);
    k.put(25); k.put((unsigned)d.dimension); k.put(d.depth); k.put(d.array); k.put(d.multiSampled); k.put((unsigned)d.samplerAccess); k.put((unsigned)d.format); k.put((unsigned)d.accessQualifier); k.put(1);
    k.at[k.nodes] = k.n; k.len[k.nodes++] = 3; k.put(22); k.put(d.sampledType.bits); k.put(0);
  }
};
// The declarations of a written module: does id declare the type described at k.t[p..]? advances p
struct Decls {
  Ins ins[256]; unsigned n = 0; unsigned at[1024]; // id -> index + 1
  void read(const unsigned *w, unsigned len) {
    n = split(w + 5, len - 5, ins, 256); sym_assert(n != ~0u, "instruction lengths tile the stream");
    for (unsigned i = 0; i < 1024; ++i) at[i] = 0;
    for (unsigned i = 0; i < n; ++i) { unsigned r = resultId(ins[i]); if (ins[i].op == 322 || ins[i].op == 327 || ins[i].op == 4472 || ins[i].op == 5341) r = ins[i].w[0]; if (r) { sym_assert(r < 1024, "harness table"); at[r] = i + 1; } }
  }
  bool is(unsigned id, const Tk &k, unsigned &p, unsigned before) {
    if (id >= 1024 || at[id] == 0 || at[id] > before) return false; // declared in front of its user
    const Ins &d = ins[at[id] - 1]; const unsigned me = at[id] - 1;
    unsigned op = k.t[p++]; if (d.op != op) return false;
    unsigned o = 1; // operand 0 is the result
    auto lit = [&](unsigned v) { return o < d.n && d.w[o++] == v; };
    auto part = [&] { return o < d.n && is(d.w[o++], k, p, me); };
    switch (op) {
    case 21: if (!lit(k.t[p++])) return false; if (!lit(k.t[p++])) return false; break;
    case 22: case 38: if (!lit(k.t[p++])) return false; break;
    case 32: if (!lit(k.t[p++])) return false; break;
    case 23: case 24: { unsigned c = k.t[p++]; ++p; if (!part() || !lit(c)) return false; return o == d.n; }
    case 28: { unsigned c = k.t[p++]; ++p; if (!part()) return false;
      if (o >= d.n) return false; unsigned cid = d.w[o++]; if (cid >= 1024 || at[cid] == 0 || at[cid] > me) return false;
      const Ins &cn = ins[at[cid] - 1]; if (cn.op != 43 || cn.n != 3 || cn.w[2] != c) return false;
      unsigned tt = cn.w[0]; if (tt >= 1024 || at[tt] == 0 || at[tt] >= at[cid]) return false; const Ins &ci = ins[at[tt] - 1]; if (ci.op != 21 || ci.w[1] != 32) return false;
      return o == d.n; }
    case 25: { unsigned q[7]; for (unsigned i = 0; i < 7; ++i) q[i] = k.t[p++]; ++p; if (!part()) return false; for (unsigned i = 0; i < 6; ++i) if (!lit(q[i])) return false; if (q[6] != (unsigned)spv::AccessQualifier::Max && !lit(q[6])) return false; return o == d.n; }
    default: break;
    }
    unsigned c = k.t[p++]; for (unsigned i = 0; i < c; ++i) if (!part()) return false;
    return o == d.n;
  }
};
