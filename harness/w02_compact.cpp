// W02: reassigning the ids of a parsed module renumbers it densely and consistently; everything else stays as it was.
#include "gen.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
using namespace spvgentwo;
struct Plain : IAllocator { void *allocate(sgt_size_t k, unsigned) override { return malloc(k); } void deallocate(void *p, sgt_size_t) override { free(p); } };
static Plain plain; static AuditAllocatorT<4096> al; static Gen g; static Sink out; static Ins a[256], b[256];
static unsigned to[1024]; static bool taken[256];
static bool unordered(unsigned op) { return op == 17 || op == 10 || op == 11; }
static bool alike(const Ins &x, const Ins &y) { // same apart from ids
  if (x.op != y.op || x.n != y.n) return false;
  unsigned d = 0; for (unsigned i = 0; i < x.n; ++i) if (!g.idAt[5 + x.at + 1 + i]) d |= x.w[i] ^ y.w[i];
  return d == 0;
}
extern "C" void harness_main(void) {
  const unsigned k = sym_param("k", 1), lo = sym_param("lo", 0), hi = sym_param("hi", Gen::Features);
  static Grammar gr(&plain);
  unsigned f[4] = {}; for (unsigned i = 0; i < k; ++i) f[i] = lo + sym_choose(hi - lo, "feature");
  g.scheme = 1 + sym_choose(2, "ids"); bool ep = sym_choose(2, "entry point"); g.bodyEnds = ep;
  g.module(f, k, ep, sym_u32("version"), sym_u32("generator"));
  unsigned na = split(g.w + 5, g.n - 5, a, 256); sym_assert(na != ~0u, "harness: generated stream is well formed");
  Module m(&al); Source r(g.w, g.n);
  if (!m.read(r, gr) || !m.resolveIDs()) return; // R01's subject
  unsigned max = static_cast<unsigned>(m.assignIDs());
  if (!m.write(out)) { sym_assert(false, "a renumbered module can be written"); return; }
  if (out.n != g.n) return; // R01's subject
  unsigned nb = split(out.w + 5, out.n - 5, b, 256); if (nb != na) return;
  sym_assert(out.w[3] == max + 1 && m.getSpvBound() == max + 1, "the bound is one more than the last id");
  unsigned defs = 0;
  bool used[256] = {};
  for (unsigned i = 0; i < na; ++i) {
    unsigned at = ~0u;
    if (!unordered(a[i].op)) at = i;
    else for (unsigned j = 0; j < nb && at == ~0u; ++j) if (!used[j] && alike(a[i], b[j])) { used[j] = true; at = j; }
    if (at == ~0u || a[i].op != b[at].op || a[i].n != b[at].n) return;
    sym_assert(alike(a[i], b[at]), "words that are no ids are left alone");
    for (unsigned o = 0; o < a[i].n; ++o) if (g.idAt[5 + a[i].at + 1 + o]) {
      unsigned was = a[i].w[o], is = b[at].w[o]; 
      sym_assert(is != 0 && is <= max, "ids are non-zero and below the bound");
      if (to[was] == 0) { sym_assert(!taken[is], "different results get different ids"); taken[is] = true; to[was] = is; ++defs; }
      sym_assert(to[was] == is, "every reference to a result is renumbered like the result");
    }
  }
  sym_assert(defs == max, "ids are dense");
  sym_cover(ep ? "with entry point" : "without entry point");
  sym_observe(max); for (unsigned i = 0; i < out.n && i < 60; ++i) sym_observe(out.w[i]);
}
