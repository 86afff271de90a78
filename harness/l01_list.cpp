// L01: histories of List operations against a plain array model, walked in both directions.
#include "common.h"
#include "spvgentwo/List.h"
using namespace spvgentwo;
struct LElem : Elem { using Elem::Elem; bool operator!=(const LElem &o) const { return get() != o.get(); } bool operator==(unsigned char x) const { return get() == x; } };
using L = List<LElem>;
struct Model { unsigned char d[24]; unsigned n = 0; bool alloc = true; };
static void same(const L &l, const Model &m) {
  sym_assert(l.size() == m.n, "size is the length of the described sequence");
  sym_assert(l.empty() == (m.n == 0), "empty() agrees with the contents");
  unsigned i = 0;
  for (auto it = l.begin(), e = l.end(); it != e; ++it) { sym_assert(i < m.n, "forward walk is not too long"); sym_assert((*it).get() == m.d[i], "forward walk yields the sequence"); ++i; }
  sym_assert(i == m.n, "forward walk yields every element");
  i = m.n;
  for (auto it = l.last(); it != nullptr; --it) { sym_assert(i > 0, "backward walk is not too long"); --i; sym_assert((*it).get() == m.d[i], "backward walk yields the sequence"); }
  sym_assert(i == 0, "backward walk yields every element");
  if (m.n) {
    sym_assert(l.front().get() == m.d[0], "front()"); sym_assert(l.back().get() == m.d[m.n - 1], "back()");
    sym_assert(l.begin().prev() == nullptr && l.last().next() == nullptr, "the ends have no neighbours");
    sym_assert(l.begin().entry()->last() == l.lastEntry() && l.lastEntry()->first() == l.begin().entry(), "first()/last() of an entry");
  }
}
static void ins(Model &m, unsigned pos, unsigned char x) { for (unsigned i = m.n; i-- > pos;) m.d[i + 1] = m.d[i]; m.d[pos] = x; ++m.n; }
static void del(Model &m, unsigned pos) { for (unsigned i = pos + 1; i < m.n; ++i) m.d[i - 1] = m.d[i]; --m.n; }

static void step(L &A, Model &a, L &B, Model &b, AuditAllocator &al) {
  unsigned char x = sym_u8("x");
  switch (sym_choose(16, "op")) {
  case 0: if (!a.alloc) return; { LElem &r = A.emplace_back(x); ins(a, a.n, x); sym_assert(&r == &A.back(), "emplace_back returns the new element"); } break;
  case 1: if (!a.alloc) return; { LElem &r = A.emplace_front(x); ins(a, 0, x); sym_assert(&r == &A.front(), "emplace_front returns the new element"); } break;
  case 2: case 3: {
    if (!a.n) return;
    bool before = sym_choose(2, "before"); unsigned pos = sym_choose(a.n, "pos");
    auto it = A.begin() + pos;
    auto *e = before ? A.insert_before(it, x) : A.insert_after(it, x);
    sym_assert(e && e->inner().get() == x, "insert returns the new entry");
    ins(a, before ? pos : pos + 1, x);
    sym_assert(before ? e->next() == it.entry() : e->prev() == it.entry(), "the new entry is the neighbour of its position");
    if (before && pos) sym_cover("insert before in the middle");
    if (!before && pos + 1 < a.n - 1) sym_cover("insert after in the middle");
    break; }
  case 4: case 5: {
    if (!a.n) return;
    unsigned pos = sym_choose(a.n, "pos"); auto it = A.begin() + pos; auto *nx = it.next().entry();
    bool destruct = sym_choose(2, "destruct");
    auto *r = A.erase(it, destruct); sym_assert(r == nx, "erase returns the next entry");
    if (!destruct) { sym_assert(it.entry()->inner().get() == a.d[pos], "an unlinked entry stays alive"); al.destruct(it.entry()); }
    if (pos == 0 && a.n == 1) sym_cover("erase the only element");
    if (pos == a.n - 1 && pos) sym_cover("erase the last element");
    del(a, pos); break; }
  case 6: if (!a.n) return; { LElem r = A.pop_back(); sym_assert(r.get() == a.d[a.n - 1], "pop_back returns the last element"); del(a, a.n - 1); } break;
  case 7: if (!a.n) return; { LElem r = A.pop_front(); sym_assert(r.get() == a.d[0], "pop_front returns the first element"); del(a, 0); } break;
  case 8: if (!b.alloc && a.n) return; B = A; if (b.n > a.n) sym_cover("copy onto a longer list"); for (unsigned i = 0; i < a.n; ++i) b.d[i] = a.d[i]; b.n = a.n; break;
  case 9: { B = static_cast<L &&>(A); b = a; a.n = 0; a.alloc = false; sym_assert(A.getAllocator() == nullptr, "moved-from lists own nothing"); break; }
  case 10: { L t(A); Model m = a; same(t, m); if (a.alloc) { t.emplace_front(x); ins(m, 0, x); same(t, m); } sym_cover("independent copy"); break; }
  case 11: { L t(static_cast<L &&>(A)); same(t, a); sym_assert(A.empty() && A.size() == 0 && A.begin() == A.end(), "moved-from lists are empty"); A.setAllocator(&al); sym_assert(A.getAllocator() == &al, "a moved-from list takes a new allocator");
    A.emplace_back(x); a.n = 0; a.alloc = true; ins(a, 0, x); break; }
  case 12: A.clear(); a.n = 0; sym_assert(A.begin() == nullptr, "clear empties"); break;
  case 13: { L &s = A; if (sym_choose(2, "how")) A = s; else A = static_cast<L &&>(s); break; }
  case 14: {
    unsigned i = 0; while (i < a.n && a.d[i] != x) ++i;
    auto it = A.find(x); sym_assert(it == A.begin() + i, "find yields the first equal element");
    sym_assert(A.contains(x) == (i < a.n), "contains() agrees with the contents");
    auto jt = A.find_if([x](const LElem &e) { return e.get() == x; }); sym_assert(jt == it, "find_if yields the first match");
    if (i && i < a.n) sym_cover("find in the middle");
    break; }
  case 15: {
    bool eq = a.n == b.n; for (unsigned i = 0; eq && i < a.n; ++i) if (a.d[i] != b.d[i]) eq = false;
    sym_assert((A == B) == eq && (A != B) == !eq, "lists compare equal exactly when their sequences do"); if (eq && a.n > 1) sym_cover("equal lists"); break; }
  }
}
void harness_main() {
  AuditAllocator al;
  const unsigned steps = (unsigned)sym_param("steps", 2);
  {
    Model a, b; L A(&al), B(&al);
    unsigned n = sym_choose(4, "initial size"), k = sym_choose(3, "other size");
    for (unsigned i = 0; i < n; ++i) { unsigned char v = sym_u8("ia"); A.emplace_back(v); a.d[a.n++] = v; }
    for (unsigned i = 0; i < k; ++i) { unsigned char v = sym_u8("ib"); B.emplace_back(v); b.d[b.n++] = v; }
    for (unsigned s = 0; s < steps; ++s) {
      if (s && sym_choose(2, "target")) step(B, b, A, a, al); else step(A, a, B, b, al);
      same(A, a); same(B, b);
      sym_assert(Elem::live == (int)(a.n + b.n), "exactly the described elements are constructed");
    }
    if (sym_choose(2, "exhausted")) { // a request that cannot be served changes nothing
      al.failAfter = al.total; unsigned char x = sym_u8("x"); Entry<LElem> *e = nullptr;
      switch (sym_choose(4, "failing op")) {
      case 0: if (a.alloc) e = A.emplace_back_entry(x); break;
      case 1: if (a.alloc) e = A.emplace_front_entry(x); break;
      case 2: if (a.n) e = A.insert_before(A.begin() + sym_choose(a.n, "pos"), x); break;
      case 3: if (a.n) e = A.insert_after(A.begin() + sym_choose(a.n, "pos"), x); break;
      }
      sym_assert(e == nullptr, "an insertion without storage is refused"); same(A, a); sym_cover("refused insertion");
    }
    for (auto &e : A) sym_observe(e.get());
  }
  sym_assert(Elem::live == 0, "every element is destroyed exactly once");
  sym_assert(al.used == 0, "every entry is freed exactly once");
}
