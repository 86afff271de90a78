// H01: histories of HashMap operations against an unordered list of pairs; small bucket counts force collisions.
#include "common.h"
#include "spvgentwo/HashMap.h"
using namespace spvgentwo;
static Hash64 mix(const unsigned char &k) { return Hash64((sgt_uint64_t)(k ^ 0x35u)); } // injective on keys
struct HElem : Elem { using Elem::Elem; HElem(unsigned char x) : Elem(x) {} };
template <class K> struct KeyOf { static unsigned char id(const K &k) { return (unsigned char)k; } static K mk(unsigned char c) { return (K)c; } };
template <> struct KeyOf<Hash64> { static unsigned char id(const Hash64 &k) { return (unsigned char)k.value; } static Hash64 mk(unsigned char c) { return Hash64((sgt_uint64_t)c); } };
struct Model { unsigned char k[16], v[16]; unsigned n = 0; bool own = true; };

static unsigned count(const Model &m, unsigned char k) { unsigned c = 0; for (unsigned i = 0; i < m.n; ++i) if (m.k[i] == k) ++c; return c; }
static int first(const Model &m, unsigned char k) { for (unsigned i = 0; i < m.n; ++i) if (m.k[i] == k) return (int)i; return -1; }
static void drop(Model &m, unsigned at) { for (unsigned i = at + 1; i < m.n; ++i) { m.k[i - 1] = m.k[i]; m.v[i - 1] = m.v[i]; } --m.n; }
static unsigned prefill = 0; // pairs inserted up front
static bool fnv = false; // keys enumerated instead of symbolic
template <class K> using Map = HashMap<K, HElem>;

template <class K> static void same(const Map<K> &h, const Model &m) {
  sym_assert(h.elements() == m.n, "the element count agrees with the contents");
  bool seen[16] = {}; unsigned n = 0;
  for (auto it = h.begin(), e = h.end(); it != e; ++it) { // every pair exactly once
    sym_assert(n < m.n, "iteration visits no pair twice"); ++n;
    bool hit = false;
    for (unsigned i = 0; i < m.n && !hit; ++i) if (!seen[i] && m.k[i] == KeyOf<K>::id(it->key) && m.v[i] == it->value.get()) { seen[i] = true; hit = true; }
    sym_assert(hit, "iteration visits exactly the described pairs");
  }
  sym_assert(n == m.n, "iteration visits every pair");
}
template <class K> static void probe(const Map<K> &h, const Model &m, unsigned char k) {
  const K key = KeyOf<K>::mk(k);
  int f = first(m, k); unsigned c = count(m, k);
  HElem *g = h.get(key);
  sym_assert((g != nullptr) == (f >= 0), "get() finds a key exactly when it is present");
  if (g) sym_assert(g->get() == m.v[f], "get() yields the first value of the key");
  sym_assert(h[key] == g, "operator[] agrees with get()");
  auto it = h.find(key);
  sym_assert((it != h.end()) == (f >= 0), "find() finds a key exactly when it is present");
  if (f >= 0) sym_assert(KeyOf<K>::id(it->key) == k && &it->value == g, "find() yields the pair of the key");
  if constexpr (!stdrep::is_same_v<K, Hash64>) sym_assert(h.count(key) == c, "count() is the number of pairs with the key");
  unsigned n = 0, at = 0;
  for (auto &node : h.getRange(key)) {
    sym_assert(KeyOf<K>::id(node.kv.key) == k, "getRange() holds pairs of the key only"); ++n;
    while (at < m.n && m.k[at] != k) ++at;
    sym_assert(at < m.n && node.kv.value.get() == m.v[at], "getRange() yields the values in insertion order"); ++at;
  }
  sym_assert(n == c, "getRange() holds every pair of the key");
}
template <class K> static void step(Map<K> &A, Model &a, Map<K> &B, Model &b, AuditAllocator &al, unsigned bk, typename Map<K>::HashFunc fn) {
  unsigned char k = fnv ? (unsigned char)(sym_choose(3, "k") * 64u + 1u) : sym_u8("k"), v = sym_u8("v"); const K key = KeyOf<K>::mk(k);
  switch (sym_choose(10, "op")) {
  case 0: case 1: { if (!a.own) return; auto &n = A.emplace(key, v); a.k[a.n] = k; a.v[a.n++] = v; sym_assert(KeyOf<K>::id(n.kv.key) == k && n.kv.value.get() == v, "emplace yields the inserted pair"); break; }
  case 2: { if (!a.own) return; int f = first(a, k); auto &n = A.emplaceUnique(key, v); if (f < 0) { a.k[a.n] = k; a.v[a.n++] = v; } else sym_cover("unique insertion of a present key");
    sym_assert(n.kv.value.get() == (f < 0 ? v : a.v[f]), "unique insertion never replaces"); sym_assert(KeyOf<K>::id(n.kv.key) == k, "unique insertion yields the key's pair"); break; }
  case 3: { auto it = A.find(key); int f = first(a, k); auto nx = A.erase(it); if (f >= 0) { sym_cover("erase present"); drop(a, (unsigned)f); } 
    // the returned iterator continues the iteration
    unsigned rest = 0; for (auto e = A.end(); nx != e; ++nx) ++rest; sym_assert(rest <= a.n, "erase returns an iterator into the map"); break; }
  case 4: { unsigned c = count(a, k); sym_assert(A.eraseRange(key) == c, "eraseRange reports the number of pairs removed"); for (int f; (f = first(a, k)) >= 0;) drop(a, (unsigned)f); if (c > 1) sym_cover("range erase of several"); break; }
  case 5: A.clear(); a.n = 0; break;
  case 6: { B = static_cast<Map<K> &&>(A); b = a; a.n = 0; a.own = false; sym_cover("move assign"); break; }
  case 7: { Map<K> t(static_cast<Map<K> &&>(A)); same(t, a); Model none; same(A, none); probe(A, none, k); A = static_cast<Map<K> &&>(t); break; }
  case 8: { K *p = A.findKey(HElem(v)); bool in = false; for (unsigned i = 0; i < a.n; ++i) if (a.v[i] == v) in = true; sym_assert((p != nullptr) == in, "findKey finds a value exactly when it is present");
    if (p) { bool ok = false; for (unsigned i = 0; i < a.n; ++i) if (a.v[i] == v && a.k[i] == KeyOf<K>::id(*p)) ok = true; sym_assert(ok, "findKey yields a key of the value"); sym_cover("findKey hit"); } break; }
  case 9: { A = Map<K>(&al, bk + 1, fn); a.n = 0; a.own = true; A.emplaceArgs(KeyOf<K>::mk(k), HElem(v), KeyOf<K>::mk((unsigned char)(k + 1)), HElem(7)); a.k[0] = k; a.v[0] = v; a.k[1] = (unsigned char)(k + 1); a.v[1] = 7; a.n = 2; break; }
  }
  probe(A, a, k);
}
template <class K> static void run(typename Map<K>::HashFunc fn, unsigned steps) {
  AuditAllocator al;
  {
    unsigned bk = 1 + sym_choose(3, "buckets");
    Map<K> A(&al, bk, fn); Model a, b;
    Map<K> B(sym_choose(2, "second map") ? &al : nullptr, 2, fn); if (!sym_concretize(B.getBucketCount())) b.own = false;
    for (unsigned c = prefill ? sym_choose(prefill + 1, "prefilled") : 0; c; --c) { unsigned char k = (unsigned char)(sym_choose(3, "k") * 64u + 1u); A.emplace(KeyOf<K>::mk(k), (unsigned char)(c * 3)); a.k[a.n] = k; a.v[a.n++] = (unsigned char)(c * 3); }
    same(A, a); same(B, b);
    for (unsigned s = 0; s < steps; ++s) { if (s > 1 && sym_choose(2, "target")) step<K>(B, b, A, a, al, bk, fn); else step<K>(A, a, B, b, al, bk, fn); same(A, a); same(B, b); sym_assert(Elem::live == (int)(a.n + b.n), "exactly the described pairs are alive"); }
    unsigned char q = fnv ? 65 : sym_u8("q"); probe(A, a, q); probe(B, b, q);
    if (a.n >= 2 && a.k[0] != a.k[1]) sym_cover("distinct keys");
  }
  sym_assert(Elem::live == 0, "destroying the map destroys every pair once");
  sym_assert(al.used == 0, "destroying the map releases everything");
}
void harness_main() {
  unsigned steps = (unsigned)sym_param("steps", 3);
  prefill = (unsigned)sym_param("pre", 0);
  fnv = sym_param("enum", 0) != 0;
  unsigned kind = sym_choose(3, "key type");
  if (kind == 0) run<unsigned char>(&mix, steps);
  else if (kind == 1) { fnv = true; run<unsigned char>(hash<unsigned char>, steps); }
  else run<Hash64>(hash<Hash64>, steps);
  { HashMap<unsigned char, HElem> d; Model none; same(d, none); probe(d, none, sym_u8("q")); } // default constructed
}
