// R01: reading a well-formed module of the generator grammar and writing it again reproduces the instruction stream.
#include "gen.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
using namespace spvgentwo;
struct Plain : IAllocator { void *allocate(sgt_size_t k, unsigned) override { return malloc(k); } void deallocate(void *p, sgt_size_t) override { free(p); } };
static Plain plain; static AuditAllocatorT<4096> al; static Gen g; static Sink out; static Ins a[256], b[256];

static bool same(const Ins &x, const Ins &y) { // opcode and length were split alike; the operand words may be symbolic
  if (x.op != y.op || x.n != y.n) return false;
  unsigned d = 0; for (unsigned i = 0; i < x.n; ++i) d |= x.w[i] ^ y.w[i];
  return d == 0;
}
static bool unordered(unsigned op) { return op == 17 || op == 10 || op == 11; } // declarations whose mutual order means nothing
extern "C" void harness_main(void) {
  const unsigned k = sym_param("k", 1), lo = sym_param("lo", 0), hi = sym_param("hi", Gen::Features);
  static Grammar gr(&plain);
  unsigned f[4] = {}; for (unsigned i = 0; i < k; ++i) f[i] = lo + sym_choose(hi - lo, "feature");
  const unsigned fixed = sym_param("fixed", 0); g.scheme = fixed ? 1 : sym_choose(2, "ids"); bool ep = fixed ? 1 : sym_choose(2, "entry point"); g.bodyEnds = ep;
  g.module(f, k, ep, sym_u32("version"), sym_u32("generator"));
  unsigned na = split(g.w + 5, g.n - 5, a, 256); sym_assert(na != ~0u, "harness: generated stream is well formed");
  {
    Module m(&al); Source r(g.w, g.n);
    bool ok = m.read(r, gr);
    sym_assert(ok, "a well-formed module is accepted");
    if (!ok) return;
    if (sym_choose(2, "resolve")) { sym_assert(m.resolveIDs(), "the references of a well-formed module resolve"); sym_cover("resolved"); }
    sym_assert(m.write(out), "a module that was read can be written");
  }
  sym_assert(al.used == 0, "everything is released");
  sym_assert(out.n == g.n, "nothing is added or lost");
  sym_assert(out.w[0] == 0x07230203 && out.w[1] == g.w[1], "same version");
  sym_assert(out.w[2] == g.w[2], "same generator");
  sym_assert(out.w[3] == g.w[3] && out.w[4] == g.w[4], "same bound and schema");
  unsigned nb = split(out.w + 5, out.n - 5, b, 256);
  sym_assert(nb == na, "the same number of instructions");
  bool used[256] = {};
  for (unsigned i = 0; i < na; ++i) {
    if (!unordered(a[i].op)) { sym_assert(same(a[i], b[i]), "the same instruction at the same place"); continue; }
    bool hit = false;
    for (unsigned j = 0; j < nb && !hit; ++j) if (!used[j] && b[j].op == a[i].op && same(a[i], b[j])) { used[j] = true; hit = true; }
    sym_assert(hit, "every declaration is reproduced");
  }
  for (unsigned i = 0; i + 1 < nb; ++i) if (unordered(b[i].op)) sym_assert(section(b[i].op) <= section(b[i + 1].op), "declarations keep their section");
  sym_observe(nb); sym_observe(out.n); for (unsigned i = 0; i < out.n && i < 60; ++i) sym_observe(out.w[i]);
}
