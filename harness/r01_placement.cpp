// R01: constructs whose place relative to other instructions of the same section matters; one label per construct.
#include "gen.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
using namespace spvgentwo;
struct Plain : IAllocator { void *allocate(sgt_size_t k, unsigned) override { return malloc(k); } void deallocate(void *p, sgt_size_t) override { free(p); } };
static Plain plain; static AuditAllocatorT<1024> al; static Gen g; static Sink out;
extern "C" void harness_main(void) {
  static Grammar gr(&plain);
  static const char *const label[] = {"a module level OpUndef stays in front of the constant that uses it", "line information stays in front of the declaration it describes", "line information stays in front of the function it describes",
    "line information between function parameters is reproduced", "a switch on a 64 bit selector is reproduced", "declarations keep their order in front of variables", "a switch on a 32 bit selector is reproduced", "line information inside a block is reproduced", "a specialization constant operation stays between constants"};
  unsigned c = sym_choose(9, "construct");
  g.scheme = 1; g.w[g.n++] = 0x07230203; g.w[g.n++] = 0x10300; g.w[g.n++] = 0; g.w[g.n++] = g.bound(); g.w[g.n++] = 0;
  g.o(17); g.put(1); g.o(14); g.put(0); g.put(1); g.o(7); g.i(40); g.str(2);
  g.o(21); g.i(2); g.put(c == 4 ? 64 : 32); g.put(0); g.o(23); g.i(12); g.i(2); g.put(2); g.o(43); g.i(2); g.i(3); g.lit(); if (c == 4) g.lit();
  if (c == 0) { g.o(1); g.i(2); g.i(30); g.o(44); g.i(12); g.i(31); g.i(3); g.i(30); }
  if (c == 1) { g.o(8); g.i(40); g.lit(); g.lit(); g.o(43); g.i(2); g.i(32); g.put(77); }
  if (c == 8) { g.o(52); g.i(2); g.i(33); g.put(128); g.i(3); g.i(3); g.o(43); g.i(2); g.i(32); g.put(77); }
  g.o(19); g.i(4);
  g.o(33); g.i(5); g.i(4); if (c == 3) g.i(2);
  if (c == 5) { g.o(32); g.i(8); g.put(6); g.i(2); g.o(32); g.i(28); g.put(6); g.i(12); g.o(59); g.i(28); g.i(9); g.put(6); g.o(59); g.i(8); g.i(29); g.put(6); g.i(3); }
  if (c == 2) { g.o(54); g.i(4); g.i(20); g.put(0); g.i(5); g.o(248); g.i(21); g.o(253); g.o(56); g.o(8); g.i(40); g.lit(); g.lit(); }
  g.o(54); g.i(4); g.i(6); g.put(0); g.i(5); if (c == 3) { g.o(8); g.i(40); g.lit(); g.lit(); g.o(55); g.i(2); g.i(22); }
  g.o(248); g.i(7);
  if (c == 7) { g.o(8); g.i(40); g.lit(); g.lit(); g.o(128); g.i(2); g.i(23); g.i(3); g.i(3); g.o(317); }
  if (c == 4 || c == 6) { g.o(247); g.i(24); g.put(0); g.o(251); g.i(3); g.i(24); for (unsigned q = 0; q < 2; ++q) { g.lit(); if (c == 4) g.lit(); g.i(25); } g.o(248); g.i(25); g.o(249); g.i(24); g.o(248); g.i(24); }
  g.o(253); g.o(56);
  Module m(&al); Source r(g.w, g.n);
  bool ok = m.read(r, gr); if (ok && sym_choose(2, "resolve")) ok = m.resolveIDs();
  ok = ok && m.write(out) && out.n == g.n;
  for (unsigned i = 0; ok && i < out.n; ++i) if (out.w[i] != g.w[i]) ok = false;
  sym_assert(ok, label[c]); sym_cover(label[c]);
}
