// B01: word packing helpers, text conversion and flag sets, for every input.
#include "common.h"
#include "spvgentwo/SpvDefines.h"
#include "spvgentwo/Flag.h"
#include "spvgentwo/Operand.h"
#include "spvgentwo/String.h"
using namespace spvgentwo;
enum class Bits : unsigned int { None = 0 };
static void packing() {
  unsigned w = sym_u32("word");
  sym_assert((unsigned)getOperation(w) == (w & 0xffff), "opcode is the low half");
  sym_assert(getOperandCount(w) == w >> 16, "word count is the high half");
  unsigned short op = sym_u16("op"), n = sym_u16("count");
  unsigned p = makeOpCode((spv::Op)op, n);
  sym_assert((unsigned)getOperation(p) == op && getOperandCount(p) == n, "instruction word round trip");
  sym_assert(p == ((unsigned)n << 16 | op), "instruction word layout");
  sym_assert(makeOpCode(getOperation(w), getOperandCount(w)) == w, "repacking an instruction word");
  unsigned char ma = sym_u8("major"), mi = sym_u8("minor");
  unsigned v = makeVersion(ma, mi);
  sym_assert(getMajorVersion(v) == ma && getMinorVersion(v) == mi, "version round trip");
  sym_assert(v == ((unsigned)ma << 16 | (unsigned)mi << 8), "version layout");
  sym_assert(getMajorVersion(w) == (w >> 16 & 255) && getMinorVersion(w) == (w >> 8 & 255), "version fields");
  unsigned short g = sym_u16("tool"), gv = sym_u16("toolversion");
  unsigned gen = makeGeneratorId(g, gv);
  sym_assert(getGeneratorId(gen) == g && getGeneratorVersion(gen) == gv, "generator round trip");
  sym_assert(getGeneratorId(w) == w >> 16 && getGeneratorVersion(w) == (w & 0xffff), "generator fields");
  sym_observe(p); sym_observe(v); sym_observe(gen); sym_cover("packing");
}
static void terminator() {
  unsigned char b[4]; unsigned w = 0; bool z = false;
  for (unsigned i = 0; i < 4; ++i) { b[i] = sym_u8("byte"); w |= (unsigned)b[i] << 8 * i; z |= b[i] == 0; }
  bool h = hasStringTerminator(w);
  sym_assert(h == z, "a word holds a terminator exactly when one of its bytes is zero");
  sgt_size_t n = sym_u32("bytes");
  sym_assert(wordCount(n) == (n == 0 ? 1 : (n + 3) / 4), "number of words covering a byte count");
  sym_assert(wordCount<char>() == 1 && wordCount<unsigned>() == 1 && wordCount<double>() == 2, "words of a type");
}
static void modes() {
  unsigned m = sym_u32("mode");
  bool id = m == (unsigned)spv::ExecutionMode::SubgroupsPerWorkgroupId || m == (unsigned)spv::ExecutionMode::LocalSizeId || m == (unsigned)spv::ExecutionMode::LocalSizeHintId || m == 5071u || m == 5072u || m == 5073u || m == 5077u; // the last four: work graphs
  spv::Op o = getExecutionModeOp((spv::ExecutionMode)m);
  sym_assert(o == (id ? spv::Op::OpExecutionModeId : spv::Op::OpExecutionMode), "modes with id operands use OpExecutionModeId");
}
static void text() {
  unsigned base = 2 + sym_choose(15, "base");
  bool pow2 = (base & (base - 1)) == 0;
  unsigned v = 0; // every word for bases that are powers of two; otherwise every small value, and the values around the powers of the base
  if (pow2) v = sym_u32("value");
  else if (sym_choose(2, "size") == 0) v = sym_bits((unsigned)sym_param("bits", 9), "value");
  else { unsigned long long p = base; unsigned k = sym_choose(20, "power"); for (unsigned i = 0; i < k; ++i) if (p * base < (1ull << 32)) p *= base; else p = (1ull << 32); v = (unsigned)(p - 1 + sym_choose(3, "near")); }
  unsigned d[33]; unsigned n = 0; unsigned x = v; // digits of v, lowest first
  do { d[n] = pow2 ? x & (base - 1) : x % base; x = pow2 ? x >> __builtin_ctz(base) : x / base; ++n; } while (x != 0);
  unsigned len = sym_choose(3, "buffer"); len = len == 0 ? n : len == 1 ? n + 2 : n / 2 + 1;
  char *buf = (char *)malloc(len + 1); for (unsigned i = 0; i <= len; ++i) buf[i] = '#';
  uintToString(v, buf, len, base);
  unsigned m = n < len ? n : len; // a buffer too short keeps the low digits
  for (unsigned i = 0; i < m; ++i) { unsigned char c = (unsigned char)buf[i]; unsigned w = d[m - 1 - i]; sym_assert(c == (w < 10 ? '0' + w : 'A' + w - 10), "the digits of the value"); }
  for (unsigned i = m; i <= len; ++i) sym_assert(buf[i] == '#', "nothing beyond the digits is written");
  if (n > len) sym_cover("short buffer"); else sym_cover("text");
  free(buf);
}
static void flags() {
  typedef Flag<Bits> F; unsigned a = sym_u32("a"), b = sym_u32("b"), c = sym_u32("c");
  F f(a), g((Bits)b), e;
  sym_assert((unsigned)f == a && (unsigned)(Bits)f == a && (bool)f == (a != 0) && f.empty() == (a == 0) && e.empty(), "a flag set is its mask");
  F bc((Bits)b, (Bits)c); sym_assert((unsigned)bc == (b | c), "the set of several flags");
  sym_assert(f.any((Bits)b, (Bits)c) == ((a & (b | c)) != 0), "any"); sym_assert(f.none((Bits)b, (Bits)c) == ((a & (b | c)) == 0), "none");
  sym_assert(f.all((Bits)b, (Bits)c) == ((a & (b | c)) == (b | c)), "all");
  sym_assert(f.any((Bits)b) == ((a & b) != 0) && f.none((Bits)b) == ((a & b) == 0) && f.all((Bits)b) == ((a & b) == b), "queries for one flag");
  sym_assert((unsigned)(f | g) == (a | b) && (unsigned)(f & g) == (a & b) && (unsigned)(f ^ g) == (a ^ b), "algebra of sets");
  sym_assert((unsigned)(f | (Bits)b) == (a | b) && (unsigned)(f & (Bits)b) == (a & b) && (unsigned)(f ^ (Bits)b) == (a ^ b), "algebra with a flag");
  sym_assert((unsigned)((Bits)a | g) == (a | b) && (unsigned)((Bits)a & g) == (a & b) && (unsigned)((Bits)a ^ g) == (a ^ b), "algebra of a flag with a set");
  F h; h = f; h |= g; sym_assert((unsigned)h == (a | b), "|="); h = f; h &= g; sym_assert((unsigned)h == (a & b), "&="); h = f; h ^= g; sym_assert((unsigned)h == (a ^ b), "^=");
  h = f; h |= (Bits)b; sym_assert((unsigned)h == (a | b), "|= flag"); h = f; h &= (Bits)b; sym_assert((unsigned)h == (a & b), "&= flag"); h = f; h ^= (Bits)b; sym_assert((unsigned)h == (a ^ b), "^= flag");
  h = f; h.set((Bits)b, (Bits)c); sym_assert((unsigned)h == (a | b | c), "set");
  sym_assert((unsigned)F::OR((Bits)a, (Bits)b, (Bits)c) == (a | b | c) && (unsigned)F::AND((Bits)a, (Bits)b, (Bits)c) == (a & b & c) && (unsigned)F::XOR((Bits)a, (Bits)b, (Bits)c) == (a ^ b ^ c), "combining flags");
  sym_cover("flags");
}
static void literals() {
  unsigned a = sym_u32("a"), b = sym_u32("b"); unsigned char n = sym_u8("bytes"); sgt_size_t len = n;
  (void)len; literal_t x{a}, y{b}; sym_assert((x == y) == (a == b), "literals compare by value");
  sym_observe(a);
}
void harness_main() {
  switch (sym_choose(6, "part")) { case 0: packing(); break; case 1: terminator(); break; case 2: modes(); break; case 3: text(); break; case 4: flags(); break; case 5: literals(); break; }
}
