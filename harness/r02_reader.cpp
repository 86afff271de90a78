// R02: reading, resolving and reconstructing any bounded word stream is memory safe, terminates, releases everything, and refuses
// streams that are truncated, whose instruction lengths do not tile the stream or do not fit the operands.
#include "oracle.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
using namespace spvgentwo;

static const unsigned short opcodes[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 38, 39, 41, 42, 43, 44, 45, 46, 48, 50, 51, 52,
  54, 55, 56, 57, 59, 61, 62, 65, 71, 72, 73, 74, 75, 79, 87, 88, 98, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 317, 321, 330, 331, 332, 333, 400, 4416, 5632, 5633, 9999};
constexpr unsigned NOps = sizeof(opcodes) / sizeof(opcodes[0]);
static unsigned w[256]; static unsigned n;
static void put(unsigned x) { w[n++] = x; }
static void op(unsigned o, unsigned words) { put(words << 16 | o); }
static Ins ins[64];
static AuditAllocatorT<4096> al;
struct Plain : IAllocator { void *allocate(sgt_size_t k, unsigned) override { return malloc(k); } void deallocate(void *p, sgt_size_t) override { free(p); } };
static Plain plain;

static void types() {
  op(22, 3); put(1); put(32);            // %1 float
  op(21, 4); put(2); put(32); put(0);    // %2 uint
  op(43, 4); put(2); put(3); put(4);     // %3 = 4u
  op(19, 2); put(4);                     // %4 void
  op(33, 3); put(5); put(4);             // %5 void()
}
// kind of operand word i (1-based) according to the operand table; 'e': enumerant with parameters of its own
static char kindAt(unsigned o, unsigned i) {
  const char *l = layout(o); unsigned at = 1; char c = 'i'; if (*l == '?') return 'i';
  for (; *l; ++l, ++at) { c = *l == 'I' ? 'i' : *l == 'L' || *l == 's' ? 'l' : *l == 'M' ? 'e' : *l; if (at == i || *l == 'I' || *l == 'L' || *l == 's') break; }
  if ((o == 16 || o == 331 || o == 71 || o == 332 || o == 5632) && i == 2) return 'e';
  if ((o == 72 || o == 5633) && i == 3) return 'e';
  if ((o == 61 && i == 4) || ((o == 62 || o == 63) && i == 3) || (o == 246 && i == 3)) return 'e';
  if ((o == 87 || o == 88 || o == 98) && i > 5) return 'i';
  if ((o == 61 && i > 4) || ((o == 62 || o == 63) && i > 3) || (o == 16 && i > 2) || (o == 331 && i > 2) || ((o == 71 || o == 332) && i > 2) || (o == 72 && i > 3)) return 'i';
  return *l ? c : 'l';
}
// one instruction whose encoded length and operands are arbitrary
static void wild(unsigned maxWords, unsigned firstOp, unsigned lastOp, unsigned flavours) {
  unsigned o = opcodes[firstOp + sym_choose(lastOp - firstOp, "opcode")], words = sym_choose(maxWords + 2, "encoded length"); if (words == maxWords + 1) words = 0xffff;
  op(o, words);
  unsigned have = words > maxWords ? maxWords : words; // the stream may also just end early
  for (unsigned i = 1; i < have; ++i) {
    char k = kindAt(o, i);
    const bool hashed = (o >= 19 && o <= 39) || (o >= 41 && o <= 52) || o == 10 || o == 11 || o == 17; // becomes part of a hash key: a few representatives
    if (k == 'l' && hashed) { static const unsigned v[] = {4, 0, 32, 0xffffffff, 0x00636261}; put(v[sym_choose(flavours > 3 ? 5 : 3, "hashed literal")]); continue; }
    if (k == 'l') { put(sym_u32("literal")); continue; }
    if (k == 'e') { static const unsigned e[] = {0, 2, 3, 17, 44, 0x7fffffff, 8, 11, 38, 41}; put(e[sym_choose(flavours > 3 ? 10 : 6, "enumerant")]); continue; }
    static const unsigned ids[] = {2, 3, 1, 9, 7, 0, 5, 0xffffffff};
    unsigned f = k == 'r' ? 3 - 3 * sym_choose(2, "result") : sym_choose(flavours, "id"); put(ids[f]);
  }
}
extern "C" void harness_main(void) {
  const unsigned maxWords = sym_param("words", 5), count = sym_param("count", 1), flavours = sym_param("flavours", 3), mode = sym_param("mode", 0), lo = sym_param("lo", 0), hi = sym_param("hi", NOps);
  static Grammar g(&plain);
  bool headerOk = true;
  if (mode == 1) { unsigned k = sym_choose(6, "header words"); for (unsigned i = 0; i < k; ++i) put(sym_u32("header")); headerOk = k == 5 && w[0] == 0x07230203; sym_cover("damaged header"); }
  else { put(0x07230203); put(0x10300); put(sym_u32("generator")); put(sym_u32("bound")); put(0); }
  unsigned start = n;
  if (mode == 0) {
    unsigned where = sym_choose(4, "where");
    if (where) types();
    if (where >= 2) { op(54, 5); put(4); put(6); put(0); put(5); }
    if (where == 3) { op(248, 2); put(7); }
    for (unsigned i = 0; i < count; ++i) wild(maxWords, lo, hi, flavours);
    if (where && sym_bool("well formed end")) { if (where == 3) op(253, 1); if (where >= 2) op(56, 1); }
  }
  bool good = headerOk;
  if (mode == 0) {
    unsigned k = split(w + start, n - start, ins, 64);
    if (k == ~0u) good = false;
    else { bool open = false; for (unsigned i = 0; i < k; ++i) { if (ins[i].op == 54) open = true; if (ins[i].op == 56) open = false; } if (open) good = false; } // ends inside a function
    if (k != ~0u) for (unsigned i = 0; i < k && good; ++i) if (layout(ins[i].op)[0] != '?' && !operands(ins[i], [](char, unsigned) {})) good = false;
  }
  {
    Module m(&al); Source r(w, n);
    bool ok = m.read(r, g);
    sym_cover(ok ? "accepted" : "refused");
    sym_assert(good || !ok, "a damaged stream is reported as failure");
    sym_observe(ok);
    if (ok) {
      sym_assert(r.at == n, "a successful read consumes the whole stream");
      if (m.resolveIDs()) { sym_cover("resolved"); bool a = m.reconstructNames(), b = m.reconstructTypeAndConstantInfo(); if (a && b) sym_cover("reconstructed"); sym_observe(a); sym_observe(b); }
      else sym_cover("unresolved");
    }
  }
  sym_assert(al.used == 0, "everything the module allocated is released");
}
