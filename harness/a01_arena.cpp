// A01: histories of requests to the fixed-buffer allocator; sizes, capacity and placement are symbolic.
#include "common.h"
#include "common/ExternalMemoryAllocator.h"
using namespace spvgentwo;
struct Blk { char *p; sgt_size_t n; bool live; };
static void align(unsigned k) { // the alignment primitive for every pointer, size and space
  sgt_size_t p = sym_u64("ptr"), size = sym_u64("size"), space = sym_u64("space");
  sgt_size_t al = (sgt_size_t)1 << k;
  sym_assume(p < (1ull << 62) && space < (1ull << 62));
  void *q = reinterpret_cast<void *>(p); void *r = IAllocator::alignPowerOf2(al, size, q, space);
  sgt_size_t up = (p + al - 1) & ~(al - 1);
  bool fits = up - p <= space && space - (up - p) >= size;
  if (!fits) { sym_assert(r == nullptr, "a request that does not fit yields null"); sym_assert(reinterpret_cast<sgt_size_t>(q) == p, "a refused request leaves the position alone"); }
  else { sym_assert(reinterpret_cast<sgt_size_t>(r) == up, "the block is the first aligned one"); sym_cover("aligned"); }
}
void harness_main() {
  if (!sym_param("pre", 0) && sym_choose(2, "part") == 0) { align(sym_choose(13, "alignment")); return; }
  const unsigned pre = (unsigned)sym_param("pre", 0), steps = pre + (unsigned)sym_param("steps", 4); const sgt_size_t Cap = 64;
  char *raw = (char *)malloc(Cap + 8);
  unsigned shift = sym_choose(3, "placement"); shift = shift == 2 ? 7 : shift; // buffers of any alignment
  sgt_size_t cap = sym_below(Cap + 1, "capacity");
  char *buf = raw + shift;
  ExternalMemoryAllocator a(buf, cap);
  Blk b[8]; unsigned n = 0; bool refused = false; sgt_size_t end = 0; // end: model of the bump position
  for (unsigned s = 0; s < steps; ++s) {
    if (s >= pre && n && b[n - 1].live && sym_choose(2, "op")) {
      Blk &l = b[n - 1]; unsigned which = sym_choose(n, "which"); Blk &v = b[which];
      if (!v.live) return;
      a.deallocate(v.p, v.n); v.live = false; if ((sgt_size_t)(v.p - buf) + v.n == end) end = (sgt_size_t)(v.p - buf);
      if (which == n - 1) { // space of the most recent block is available again
        void *r = a.allocate(l.n, 1); sym_assert(r == l.p || l.n == 0, "returning the most recent block makes its space available"); l.p = (char *)r; l.live = true; end = (sgt_size_t)(l.p - buf) + l.n; sym_cover("reuse");
        if (sym_choose(2, "keep") == 0) { a.deallocate(l.p, l.n); end = (sgt_size_t)(l.p - buf); --n; }
      }
      continue;
    }
    sgt_size_t size = 0;
    switch (s < pre ? 0 : sym_choose(2, "size kind")) {
    case 0: size = sym_u8("size"); break;
    case 1: size = ~(sgt_size_t)sym_u8("size"); break; } // sizes whose end address wraps around
    sgt_size_t al = (sgt_size_t)1 << (s < pre ? 0 : 2 * sym_choose(3, "align"));
    char *p = (char *)a.allocate(size, (unsigned)al);
    if (p == nullptr) {
      sgt_size_t at = (((sgt_size_t)buf & 15) + end + al - 1 & ~(al - 1)) - ((sgt_size_t)buf & 15);
      sym_assert(at > cap || cap - at < size, "a request that fits is served"); refused = true; sym_cover("refused");
      continue;
    }
    if (refused) sym_cover("served after a refusal");
    sym_assert(((sgt_size_t)p & (al - 1)) == 0, "aligned as requested");
    sgt_size_t off = (sgt_size_t)(p - buf);
    sym_assert(off <= cap && size <= cap - off, "inside the buffer");
    for (unsigned i = 0; i < n; ++i) if (b[i].live) sym_assert(b[i].n == 0 || size == 0 || off >= (sgt_size_t)(b[i].p - buf) + b[i].n || off + size <= (sgt_size_t)(b[i].p - buf), "disjoint from the blocks in use");
    b[n].p = p; b[n].n = size; b[n].live = true; ++n; end = off + size;
    sym_observe(off);
  }
  free(raw);
}
