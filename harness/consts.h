// Constants by independent description: [opcode, type.., number of words, words.., number of parts, parts..]
#pragma once
#include "types.h"
inline void ckOf(const Constant &c, Tk &k) {
  k.put((unsigned)c.getOperation()); tkOf(c.getType(), k);
  unsigned n = 0; for (unsigned w : c.getData()) { (void)w; ++n; } k.put(n); for (unsigned w : c.getData()) k.put(w);
  n = 0; for (const Constant &p : c.getComponents()) { (void)p; ++n; } k.put(n); for (const Constant &p : c.getComponents()) ckOf(p, k);
}
struct ConstGen {
  unsigned wide = 1;       // symbolic bytes to spend
  bool spec = false;
  static constexpr unsigned Scalars = 13, Kinds = 23;
  unsigned char byte() { if (wide) { --wide; return sym_u8("value byte"); } static const unsigned char v[] = {0, 0x80, 0xff}; return v[sym_choose(few ? 2 : 3, "byte")]; }
  bool few = false;
  // a value with one interesting byte
  unsigned long long bits(unsigned bytes) { unsigned at = bytes == 1 ? 0 : sym_choose(few ? 1 : 2, "place") * (bytes - 1); unsigned long long b = byte(); return b << 8 * at | (at ? 0x05 : 0); }
  template <class T> T value() {
    if constexpr (stdrep::is_same_v<T, bool>) return sym_choose(2, "truth");
    else if constexpr (stdrep::is_same_v<T, float>) { unsigned b = (unsigned)bits(4); float f; __builtin_memcpy(&f, &b, 4); return f; }
    else if constexpr (stdrep::is_same_v<T, double>) { unsigned long long b = bits(8); double f; __builtin_memcpy(&f, &b, 8); return f; }
    else return (T)bits(sizeof(T));
  }
  template <class T> static void typeOf(Tk &k) {
    if constexpr (stdrep::is_same_v<T, bool>) k.put(20);
    else if constexpr (stdrep::is_same_v<T, float> || stdrep::is_same_v<T, double>) { k.put(22); k.put(8 * sizeof(T)); }
    else { k.put(21); k.put(8 * sizeof(T)); k.put(T(-1) < T(0)); }
    k.put(0);
  }
  template <class T> void describe(const T &v, Tk &k) { describe(v, k, spec); }
  template <class T> static void describe(const T &v, Tk &k, bool spec) { // the parts of a specialized composite are plain constants
    if constexpr (stdrep::is_same_v<T, bool>) { k.put(spec ? (v ? 48 : 49) : (v ? 41 : 42)); typeOf<T>(k); k.put(1); k.put(v); k.put(0); return; }
    else {
      k.put(spec ? 50 : 43); typeOf<T>(k);
      if constexpr (sizeof(T) == 8) { unsigned long long b; __builtin_memcpy(&b, &v, 8); k.put(2); k.put((unsigned)b); k.put((unsigned)(b >> 32)); }
      else if constexpr (stdrep::is_same_v<T, float>) { unsigned b; __builtin_memcpy(&b, &v, 4); k.put(1); k.put(b); }
      else { k.put(1); k.put((unsigned)(int)v); } // narrow values extended by their sign
      k.put(0);
    }
  }
};
// description -> is the instruction stream's id declared like that? advances p
inline unsigned ckSkipType(const unsigned *t, unsigned p) { unsigned op = t[p++]; static const unsigned two[] = {21}; p += op == two[0] ? 2 : op == 22 || op == 23 || op == 24 || op == 28 || op == 32 || op == 38 ? 1 : op == 25 ? 7 : 0; unsigned n = t[p++]; while (n--) p = ckSkipType(t, p); return p; }
inline bool ckIs(Decls &d, unsigned id, const Tk &k, unsigned &p, unsigned before) {
  if (id >= 1024 || d.at[id] == 0 || d.at[id] > before) return false;
  const Ins &in = d.ins[d.at[id] - 1]; const unsigned me = d.at[id] - 1;
  unsigned op = k.t[p++]; if (in.op != op || in.n < 2) return false;
  if (!d.is(in.w[0], k, p, me)) return false;
  unsigned n = k.t[p++], o = 2;
  if (op == 43 || op == 50 || op == 45) { if (in.n != 2 + n) return false; for (unsigned i = 0; i < n; ++i) if (in.w[o++] != k.t[p++]) return false; } else p += n;
  n = k.t[p++]; if (op == 44 || op == 51) { if (in.n != 2 + n) return false; for (unsigned i = 0; i < n; ++i) if (!ckIs(d, in.w[o++], k, p, me)) return false; }
  return o == in.n;
}
// makes a chosen constant through Module::constant
struct ConstMaker : ConstGen {
  unsigned only = 0; // kinds: 0 all, else that many
  Constant *made = nullptr; // the constant as built on its own
  template <class T> Instruction *scalar(Module &m, Tk &k) { T v = value<T>(); describe(v, k); Instruction *i = spec ? m.specConstant(v) : m.constant(v); check<T>(m, i, v); if (made) made->make(v, spec); return i; }
  template <class T> void check(Module &m, Instruction *i, const T &v) {
    const Constant *c = m.getConstantInfo(i); sym_assert(c != nullptr, "a constant has a description");
    const T *g = c->getDataAs<T>(); sym_assert(g != nullptr, "the recorded constant gives a value of its type");
    sym_assert(__builtin_memcmp(g, &v, sizeof(T)) == 0, "the recorded constant gives back the value it was built from");
    if constexpr (sizeof(T) == 4) sym_assert(c->getDataAs<double>() == nullptr, "no value of another type"); else sym_assert(c->getDataAs<unsigned>() == nullptr || stdrep::is_same_v<T, unsigned>, "no value of another type");
  }
  unsigned comp() const { return spec ? 51 : 44; }
  template <class V> Instruction *make(Module &m, const V &v) { if (made) made->make(v, spec); return spec ? m.specConstant(v) : m.constant(v); }
  Instruction *make(Module &m, Tk &k, unsigned kind) {
    switch (kind) {
    case 0: return scalar<bool>(m, k); case 1: return scalar<int>(m, k); case 2: return scalar<unsigned>(m, k); case 3: return scalar<float>(m, k); case 4: return scalar<char>(m, k); case 5: return scalar<unsigned char>(m, k);
    case 6: return scalar<short>(m, k); case 7: return scalar<unsigned short>(m, k); case 8: return scalar<long long>(m, k); case 9: return scalar<unsigned long long>(m, k); case 10: return scalar<double>(m, k); 
    case 11: { k.put(46); put(k, {20, 0, 0, 0}); const_null_t<bool> v; return make(m, v); }
    case 12: { const_matrix_t<double, 2, 3> v; for (unsigned i = 0; i < 6; ++i) v.data[i / 3].data[i % 3] = i; v.data[1].data[2] = value<double>(); k.put(comp()); put(k, {24, 2, 1, 23, 3, 1, 22, 64, 0, 0, 2}); for (auto &c : v.data) { k.put(44); put(k, {23, 3, 1, 22, 64, 0, 0, 3}); for (double f : c.data) describe(f, k, false); } return make(m, v); }
    case 13: { const_vector_t<float, 3> v; v.data[0] = value<float>(); v.data[1] = 1.f; v.data[2] = -2.f; k.put(comp()); put(k, {23, 3, 1, 22, 32, 0, 0, 3}); for (float f : v.data) describe(f, k, false); return make(m, v); }
    case 14: { const_vector_t<short, 2> v; v.data[0] = 3; v.data[1] = value<short>(); k.put(comp()); put(k, {23, 2, 1, 21, 16, 1, 0, 0, 2}); for (short f : v.data) describe(f, k, false); return make(m, v); }
    case 15: { const_array_t<unsigned, 2> v; v.data[0] = value<unsigned>(); v.data[1] = 7; k.put(comp()); put(k, {28, 2, 1, 21, 32, 0, 0, 0, 2}); for (unsigned f : v.data) describe(f, k, false); return make(m, v); }
    case 16: { const_matrix_t<float, 3, 2> v; v.data[0].data[0] = 1.f; v.data[0].data[1] = value<float>(); v.data[1] = v.data[0]; v.data[1].data[0] = 4.f; v.data[2] = v.data[0]; k.put(comp()); put(k, {24, 3, 1, 23, 2, 1, 22, 32, 0, 0, 3}); for (auto &c : v.data) { k.put(44); put(k, {23, 2, 1, 22, 32, 0, 0, 2}); for (float f : c.data) describe(f, k, false); } return make(m, v); }
    case 17: { const_array_t<const_vector_t<int, 2>, 2> v; v.data[0].data[0] = value<int>(); v.data[0].data[1] = 2; v.data[1].data[0] = 3; v.data[1].data[1] = 4; k.put(comp()); put(k, {28, 2, 1, 23, 2, 1, 21, 32, 1, 0, 0, 2}); for (auto &c : v.data) { k.put(44); put(k, {23, 2, 1, 21, 32, 1, 0, 0, 2}); for (int f : c.data) describe(f, k, false); } return make(m, v); }
    case 18: { k.put(46); put(k, {23, 4, 1, 22, 32, 0, 0, 0}); const_null_t<vector_t<float, 4>> v; return make(m, v); }
    case 19: { k.put(46); put(k, {21, 32, 0, 0, 0, 0}); const_null_t<unsigned> v; return make(m, v); }
    case 20: { const_sampler_t v; v.addressMode = (spv::SamplerAddressingMode)sym_choose(3, "mode"); v.coordMode = (ConstantSamplerCoordMode)sym_choose(2, "coordinates"); v.filterMode = (spv::SamplerFilterMode)sym_choose(2, "filter");
      k.put(45); put(k, {26, 0, 3, (unsigned)v.addressMode, (unsigned)v.coordMode, (unsigned)v.filterMode, 0}); return make(m, v); }
    case 22: { // put together by hand: a structure of a specialized part and a vector
      Constant s = m.newConstant(); s.setOperation(spv::Op(comp())); Type &t = s.getType(); t.Struct(); t.Member().UInt(16); t.Member().VectorElement(2).Float();
      unsigned short v = value<unsigned short>(); s.Component().make(v, true); const_vector_t<float, 2> w; w.data[0] = 1.f; w.data[1] = 8.f; s.Component().make(w);
      k.put(comp()); put(k, {30, 2, 21, 16, 0, 0, 23, 2, 1, 22, 32, 0, 0, 2}); describe(v, k, true); put(k, {44, 23, 2, 1, 22, 32, 0, 0, 2}); for (float f : w.data) describe(f, k, false);
      if (made) *made = s; return m.addConstant(s, "by hand"); }
    default: { const_vector_t<bool, 2> v; v.data[0] = value<bool>(); v.data[1] = true; k.put(comp()); put(k, {23, 2, 1, 20, 0, 0, 2}); for (bool f : v.data) describe(f, k, false); return make(m, v); }
    }
  }
  template <unsigned N> static void put(Tk &k, const unsigned (&w)[N]) { for (unsigned x : w) k.put(x); }
};
