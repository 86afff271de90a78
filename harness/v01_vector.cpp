// V01: histories of Vector operations against a plain array model.
#include "common.h"
#include "spvgentwo/Vector.h"
using namespace spvgentwo;
using Vec = Vector<Elem>;
struct Model { unsigned char d[40]; unsigned n = 0; bool alloc = true; };

static void same(const Vec &v, const Model &m) {
  sym_assert(v.size() == m.n, "size is the length of the described sequence");
  sym_assert(v.capacity() >= v.size(), "capacity covers the elements");
  sym_assert(v.empty() == (m.n == 0), "empty() agrees with size");
  for (unsigned i = 0; i < m.n; ++i) sym_assert(v[i].get() == m.d[i], "element value");
  unsigned i = 0;
  for (const Elem &e : v) { sym_assert(i < m.n && &e == v.data() + i, "iteration visits the elements in order"); ++i; }
  sym_assert(i == m.n, "iteration visits every element");
  if (m.n) { sym_assert(v.front().get() == m.d[0], "front()"); sym_assert(v.back().get() == m.d[m.n - 1], "back()"); }
}
static void insertModel(Model &m, unsigned pos, const unsigned char *p, unsigned c) {
  for (unsigned i = m.n; i-- > pos;) m.d[i + c] = m.d[i];
  for (unsigned i = 0; i < c; ++i) m.d[pos + i] = p[i];
  m.n += c;
}
static void insertCheck(Vec &v, Model &m, Elem *r, unsigned pos, const unsigned char *p, unsigned c) {
  if (!m.alloc && v.size() == m.n) { if (c == 0) return; sym_assert(r == nullptr, "insert without storage is refused"); return; }
  insertModel(m, pos, p, c);
  if (m.n) sym_assert(r == v.data() + pos, "insert returns the first inserted element");
}
static void resizeModel(Model &m, unsigned k, unsigned char val) { for (unsigned i = m.n; i < k; ++i) m.d[i] = val; m.n = k; }

static void step(Vec &A, Model &a, Vec &B, Model &b, unsigned lim) {
  unsigned char x = sym_u8("x"), y = sym_u8("y"), z = sym_u8("z");
  const unsigned char vals[3] = {x, y, z};
  switch (sym_choose(16, "op")) {
  case 0: { Elem *r = A.emplace_back(x); if (!a.alloc) sym_assert(!r, "append without storage is refused"); else { sym_assert(r && r->get() == x, "emplace_back returns the element"); a.d[a.n++] = x; } break; }
  case 1: { if (!a.alloc) return; A.emplace_back_args(Elem(x), Elem(y), Elem(z)); for (unsigned char q : vals) a.d[a.n++] = q; sym_cover("append several"); break; }
  case 2: {
    unsigned c = sym_choose(lim, "cnt"), pos = sym_choose(a.n + 1, "pos");
    Elem src[3] = {x, y, z};
    Elem *r = A.insert(pos, src, c); insertCheck(A, a, r, pos, vals, c);
    if (pos < a.n && c > 1) sym_cover("insert in the middle");
    break; }
  case 3: { unsigned pos = sym_choose(a.n + 1, "pos"); Elem *r = A.insert(pos, Elem(x)); insertCheck(A, a, r, pos, vals, 1); break; }
  case 4: { unsigned pos = sym_choose(a.n + 1, "pos"); Elem src[2] = {x, y}; Elem *r = A.insert(pos, src); insertCheck(A, a, r, pos, vals, 2); break; }
  case 5: { if (a.n == 0) return; Elem src[1] = {x}; sgt_size_t pos = sym_u64("beyond"); sym_assume(pos > a.n); sym_assert(A.insert(pos, src, 1) == nullptr, "insert beyond the end is refused"); break; }
  case 6: {
    sgt_size_t pos = sym_choose(a.n + 2, "pos"), cnt = sym_u64("count"); // any count, any reachable position
    if (pos > a.n) pos = sym_choose(2, "far") ? sgt_size_max - 1 : a.n + 1;
    A.assign(Elem(x), pos, cnt);
    for (sgt_size_t i = pos; i < a.n && i - pos < cnt; ++i) a.d[i] = x;
    if (pos && pos < a.n && cnt >= a.n) sym_cover("assign a tail");
    break; }
  case 7: { unsigned k = sym_below(7, "reserve"); bool enough = A.capacity() >= k; bool r = A.reserve(k); sym_assert(r == (a.alloc || enough), "reserve reports success"); if (r) sym_assert(A.capacity() >= k, "reserve provides capacity"); break; }
  case 8: {
    unsigned k = sym_below(7, "resize"); bool init = sym_choose(2, "init"); Elem e(x); bool enough = A.capacity() >= k;
    bool r = A.resize(k, init ? &e : nullptr);
    sym_assert(r == (a.alloc || enough), "resize reports success");
    if (r) { if (k < a.n) sym_cover("shrink"); if (k > a.n && enough) sym_cover("grow within capacity"); resizeModel(a, k, init ? x : 0); }
    break; }
  case 9: A.clear(); a.n = 0; break;
  case 10: if (!b.alloc && a.n) return; B = A; for (unsigned i = 0; i < a.n; ++i) b.d[i] = a.d[i]; b.n = a.n; sym_cover("copy assign"); break;
  case 11: { B = static_cast<Vec &&>(A); bool al = a.alloc; b = a; b.alloc = al; a.n = 0; a.alloc = false; sym_assert(A.size() == 0 && A.empty(), "a moved-from array is empty"); break; }
  case 12: { Vec t(A); Model m = a; if (t.size() != 0 || a.alloc) same(t, m); Elem *r = t.emplace_back(x); if (a.alloc) { sym_assert(r != nullptr, "append to a copy"); m.d[m.n++] = x; same(t, m); } break; }
  case 13: { Vec t(static_cast<Vec &&>(A)); same(t, a); A = static_cast<Vec &&>(t); break; }
  case 14: { if (!a.alloc) return; Elem src[3] = {x, y, z}; A = src; for (unsigned i = 0; i < 3; ++i) a.d[i] = vals[i]; a.n = 3; break; }
  case 15: { Vec &s = A; if (sym_choose(2, "self")) A = s; else A = static_cast<Vec &&>(s); break; }
  }
}

void harness_main() {
  AuditAllocator al;
  const unsigned steps = (unsigned)sym_param("steps", 2), lim = (unsigned)sym_param("ins", 4);
  {
    Model a, b;
    Elem init[3] = {Elem(sym_u8("i0")), Elem(sym_u8("i1")), Elem(sym_u8("i2"))};
    unsigned n = sym_choose(4, "initial size");
    Vec A(&al, init, n), B(&al);
    for (unsigned i = 0; i < n; ++i) a.d[i] = init[i].get();
    a.n = n;
    unsigned cap = sym_choose(3, "slack");
    if (cap) A.reserve(n + cap * 2);
    if (sym_choose(2, "other")) { B.emplace_back(init[2]); b.d[b.n++] = init[2].get(); B.reserve(3); }
    same(A, a); same(B, b);
    for (unsigned s = 0; s < steps; ++s) {
      // either array may be the target
      if (s > 0 && sym_choose(2, "target")) step(B, b, A, a, lim); else step(A, a, B, b, lim);
      same(A, a); same(B, b);
      sym_assert(Elem::live == (int)(3 + a.n + b.n), "exactly the described elements are constructed");
    }
    for (unsigned i = 0; i < a.n; ++i) sym_observe(A[i].get());
    sym_observe(a.n);
  }
  sym_assert(Elem::live == 0, "every element is destroyed exactly once");
  sym_assert(al.used == 0, "all memory is returned");
}
