// B02: literal operands and literal strings, for every value / every string up to a length.
#include "common.h"
#include "spvgentwo/Module.h"
#include "spvgentwo/Instruction.h"
#include "spvgentwo/InstructionTemplate.inl"
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/String.h"
#include "spvgentwo/Vector.h"
#include "spvgentwo/Writer.h"
using namespace spvgentwo;
static const unsigned MaxW = 40;
struct W : IWriter { unsigned w[MaxW]; unsigned n = 0; bool put(unsigned x) override { if (n < MaxW) w[n] = x; ++n; return true; } };
enum class Narrow : unsigned char { A };
enum class Signed8 : signed char { A };
enum class Word : unsigned { A };
template <class T> static T val(uint64_t bits) { T t; __builtin_memcpy(&t, &bits, sizeof(T)); return t; }
// emits one literal of the given kind, appends the words SPIR-V prescribes
template <class Emit> static void one(unsigned kind, unsigned *want, unsigned &n, Emit emit) {
  uint64_t b;
  switch (kind) {
  case 0: b = sym_u32("v"); emit(val<unsigned>(b)); want[n++] = (unsigned)b; break;
  case 1: b = sym_u32("v"); emit(val<int>(b)); want[n++] = (unsigned)b; break;
  case 2: b = sym_u8("v"); emit(val<char>(b)); want[n++] = (unsigned)(int)(signed char)b; break;
  case 3: b = sym_u8("v"); emit(val<signed char>(b)); want[n++] = (unsigned)(int)(signed char)b; break;
  case 4: b = sym_u8("v"); emit(val<unsigned char>(b)); want[n++] = (unsigned)b; break;
  case 5: b = sym_u16("v"); emit(val<short>(b)); want[n++] = (unsigned)(int)(short)b; break;
  case 6: b = sym_u16("v"); emit(val<unsigned short>(b)); want[n++] = (unsigned)b; break;
  case 7: b = sym_u64("v"); emit(val<sgt_int64_t>(b)); want[n++] = (unsigned)b; want[n++] = (unsigned)(b >> 32); break;
  case 8: b = sym_u64("v"); emit(val<sgt_uint64_t>(b)); want[n++] = (unsigned)b; want[n++] = (unsigned)(b >> 32); break;
  case 9: b = sym_u32("v"); emit(val<float>(b)); want[n++] = (unsigned)b; break;
  case 10: b = sym_u64("v"); emit(val<double>(b)); want[n++] = (unsigned)b; want[n++] = (unsigned)(b >> 32); break;
  case 11: b = sym_bool("v"); emit((bool)b); want[n++] = (unsigned)b; break;
  case 12: b = sym_u8("v"); emit(val<Narrow>(b)); want[n++] = (unsigned)b; break;
  case 13: b = sym_u32("v"); emit(val<Word>(b)); want[n++] = (unsigned)b; break;
  case 14: b = sym_u8("v"); emit(val<Signed8>(b)); want[n++] = (unsigned)(int)(signed char)b; break;
  }
}
static unsigned packed(const char *s, unsigned len, unsigned *want) { // words of a literal string
  unsigned n = len / 4 + 1;
  for (unsigned i = 0; i < n; ++i) { want[i] = 0; for (unsigned k = 0; k < 4; ++k) if (4 * i + k < len) want[i] |= (unsigned)(unsigned char)s[4 * i + k] << 8 * k; }
  return n;
}
static void check(Instruction &in, spv::Op op, const unsigned *want, unsigned n) {
  W w; sym_assert(in.getWordCount() == n + 1, "word count covers opcode and operands");
  sym_assert(in.getOpCode() == ((unsigned)op | (n + 1) << 16), "instruction word");
  sym_assert(in.write(w) && w.n == n + 1, "all words are written");
  sym_assert(w.w[0] == ((unsigned)op | (n + 1) << 16), "instruction word is first");
  unsigned i = 0;
  for (const Operand &o : in) { sym_assert(o.isLiteral() && o.getLiteral().value == want[i], "operand holds the literal word"); ++i; }
  for (i = 0; i < n; ++i) { sym_assert(w.w[i + 1] == want[i], "literal words"); sym_observe(w.w[i + 1]); }
}
static char *text(unsigned len, const char *nm) {
  char *s = (char *)malloc(len + 1);
  for (unsigned i = 0; i < len; ++i) { unsigned char c = sym_u8(nm); sym_assume(c != 0); s[i] = (char)c; }
  s[len] = 0; return s;
}
static void numbers(Module &m) {
  unsigned how = sym_choose(3, "how"), k1 = sym_choose(15, "kind"), k2 = sym_choose(16, "kind2");
  unsigned want[8], n = 0;
  if (how == 0) { // one instruction, values appended one after the other
    Instruction in(&m, spv::Op::OpNop); 
    one(k1, want, n, [&](auto v) { in.appendLiterals(v); }); if (k2 < 15) one(k2, want, n, [&](auto v) { in.appendLiterals(v); });
    check(in, spv::Op::OpNop, want, n);
  } else if (how == 1) { // several values in one call
    if (k2 == 15) return;
    Instruction in(&m, spv::Op::OpNop);
    unsigned lead = sym_u32("lead"); want[n++] = lead;
    one(k1, want, n, [&](auto v) { in.appendLiterals(lead, v); });
    unsigned short tail = sym_u16("tail"); 
    one(k2, want, n, [&](auto v) { in.appendLiterals(v, tail); }); want[n++] = tail;
    check(in, spv::Op::OpNop, want, n);
  } else { // as operands of an instruction
    if (k2 < 15) return;
    Instruction in(&m, spv::Op::OpNop); unsigned a = sym_u32("first"); want[n++] = a;
    one(k1, want, n, [&](auto v) { in.makeOp(spv::Op::OpSource, a, v, 7u); }); want[n++] = 7;
    check(in, spv::Op::OpSource, want, n); sym_cover("operands");
  }
}
static void strings(Module &m) {
  const unsigned L = (unsigned)sym_param("len", 9);
  unsigned len = sym_choose(L + 1, "length"); char *s = text(len, "char");
  unsigned want[MaxW], n = 0; unsigned lead = sym_choose(2, "lead"), v = sym_u32("leadword"), trail = sym_choose(2, "trail"), tv = sym_u32("trailword");
  Instruction in(&m, spv::Op::OpNop);
  if (lead) { in.appendLiterals(v); want[n++] = v; }
  unsigned sn = packed(s, len, want + n); in.appendLiterals((const char *)s); n += sn;
  if (trail) { in.appendLiterals(tv); want[n++] = tv; }
  check(in, spv::Op::OpNop, want, n);
  auto b = in.begin(); if (lead) ++b;
  auto after = b; for (unsigned i = 0; i < sn; ++i) ++after;
  AuditAllocator al; {
    String out(&al); auto it = getLiteralString(out, b, in.end());
    sym_assert(it == after, "reading ends just behind the string");
    sym_assert(out.size() == len, "the string has its length");
    for (unsigned i = 0; i < len; ++i) sym_assert(out.c_str()[i] == s[i], "the string has its bytes");
    if (out.c_str()) sym_assert(out.c_str()[len] == 0, "the string is terminated");
    String pre(&al, "ab"); getLiteralString(pre, b, in.end()); // appends to what is there
    sym_assert(pre.size() == len + 2 && pre.c_str()[0] == 'a' && pre.c_str()[1] == 'b' && pre.c_str()[len + 2] == 0, "reading appends");
    for (unsigned i = 0; i < len; ++i) sym_assert(pre.c_str()[2 + i] == s[i], "reading appends the bytes");
  }
  sym_assert(al.used == 0, "storage is returned");
  sym_assert(skipLiteralString(b) == after, "skipping ends just behind the string");
  // comparison with any other string
  unsigned l2 = sym_choose(L + 1, "other length"); if (l2 > len + 1 || len > l2 + 1) { in.clear(); free(s); return; }
  char *t = text(l2, "other");
  bool eq = l2 == len; if (eq) for (unsigned i = 0; i < len; ++i) eq = eq & (s[i] == t[i]);
  sym_assert(compareLiteralString(t, b, in.end()) == eq, "strings compare equal exactly when their bytes are");
  if (l2 <= len && l2 > 0) { bool pre = true; for (unsigned i = 0; i < l2; ++i) pre = pre & (s[i] == t[i]);
    sym_assert(compareLiteralString(t, b, in.end(), l2) == pre, "comparison up to a length compares a prefix"); sym_cover("prefix"); }
  sym_cover("strings");
  free(t); free(s);
}
static void mixed(Module &m) { // a string is ended by an operand which is no literal; the iterator returned points there
  Instruction in(&m, spv::Op::OpNop); AuditAllocator al; unsigned w = sym_u32("word"); bool z = false; for (unsigned i = 0; i < 4; ++i) z |= (w >> 8 * i & 255) == 0;
  in.addOperand(literal_t{w}); in.addOperand((spv::Id)3); in.addOperand(literal_t{0u});
  { String out(&al); auto it = getLiteralString(out, in.begin(), in.end()); sym_assert(it == in.begin().next(), "a string ends before the first operand which is no literal");
    unsigned n = 0; for (; n < 4; ++n) if ((w >> 8 * n & 255) == 0) break;
    sym_assert(out.size() == n, "bytes up to the terminator");
    auto sk = skipLiteralString(in.begin()); sym_assert(sk == in.begin().next(), "skipping stops there, too"); }
  if (z) sym_cover("terminated"); else sym_cover("not terminated");
}
void harness_main() {
  AuditAllocator al; {
    Module m(&al);
    switch (sym_choose(3, "part")) { case 0: numbers(m); break; case 1: strings(m); break; case 2: mixed(m); break; }
  }
  sym_assert(al.used == 0, "module storage is returned");
}
