// An independent view of SPIR-V streams: word sink/source and a small table of operand layouts taken from the specification.
#pragma once
#include "common.h"
#include "spvgentwo/Writer.h"
#include "spvgentwo/Reader.h"

template <unsigned Max> struct SinkT : spvgentwo::IWriter {
  unsigned w[Max]; unsigned n = 0; unsigned failAt = ~0u;
  bool put(unsigned x) override { if (n == failAt) return false; sym_assert(n < Max, "harness sink is large enough"); w[n++] = x; return true; }
};
using Sink = SinkT<1024>;
struct Source : spvgentwo::IReader {
  const unsigned *w; unsigned n; unsigned at = 0;
  Source(const unsigned *p, unsigned k) : w(p), n(k) {}
  bool get(unsigned &x) override { if (at >= n) return false; x = w[at++]; return true; }
};

// r result id, t result type, i id, l literal word, s string; I/L: rest ids/literals; O: optional literal then ids; P: pairs (id, id); ? unknown
inline const char *layout(unsigned op) {
  switch (op) {
  case 0: case 56: case 252: case 253: case 255: case 317: case 218: case 219: return "";
  case 1: case 41: case 42: case 46: case 48: case 49: case 55: return "tr";
  case 2: case 4: case 10: case 330: return "s";
  case 3: return "llIs"; case 5: return "is"; case 6: return "ils"; case 7: case 11: return "rs"; case 8: return "ill";
  case 12: return "trilI"; case 14: return "ll"; case 15: return "lisI"; case 16: return "ilL"; case 17: return "l";
  case 19: case 20: case 26: case 248: case 34: case 35: case 36: case 37: return "r";
  case 21: return "rll"; case 22: return "rl"; case 23: case 24: return "ril"; case 25: return "rilllllL"; // image: dim depth arrayed ms sampled format [access]
  case 27: case 29: return "ri"; case 28: return "rii"; case 30: return "rI"; case 31: return "rs"; case 32: return "rli"; case 33: return "riI"; case 38: return "rl"; case 39: return "il";
  case 43: case 50: return "trL"; case 44: case 51: return "trI"; case 45: return "trlll"; case 52: return "trlI";
  case 54: return "trli"; case 57: return "triI"; case 59: return "trlI"; case 61: return "triL"; case 62: case 63: return "iiL"; case 64: return "iiiL";
  case 65: case 66: return "triI"; case 68: case 123: return "tril"; case 71: return "ilL"; case 72: return "illL";
  case 77: return "trii"; case 78: return "triii"; case 79: return "triiL"; case 80: return "trI"; case 81: return "triL"; case 82: return "triiL"; case 83: case 84: return "tri";
  case 86: return "trii"; case 100: return "tri"; case 103: case 105: return "trii"; case 104: case 106: case 107: return "tri";
  case 87: case 88: case 91: case 92: case 95: case 98: return "triiM"; case 89: case 90: case 93: case 94: case 96: case 97: return "triiiM"; case 99: return "iiiM";
  case 109: case 110: case 111: case 112: case 113: case 114: case 115: case 116: case 118: case 117: case 120: case 121: case 122: case 124: case 119: case 126: case 127: return "tri";
  case 128: case 129: case 130: case 131: case 132: case 133: case 134: case 135: case 136: case 137: case 138: case 139: case 140: case 141:
  case 142: case 143: case 144: case 145: case 146: case 147: case 148: case 149: case 150: case 151: case 152: return "trii";
  case 154: case 155: case 156: case 157: case 158: case 159: case 160: return "tri";
  case 161: case 162: case 163: case 164: case 165: case 166: case 167: return "trii"; case 168: return "tri"; case 169: return "triii";
  case 170: case 171: case 172: case 173: case 174: case 175: case 176: case 177: case 178: case 179: case 180: case 181: case 182: case 183: case 184: case 185: case 186: case 187: case 188: case 189: case 190: case 191: return "trii";
  case 194: case 195: case 196: case 197: case 198: case 199: return "trii"; case 200: return "tri"; case 201: return "triiii"; case 202: case 203: return "triii"; case 204: case 205: return "tri";
  case 207: case 208: case 209: case 210: case 211: case 212: case 213: case 214: case 215: return "tri";
  case 220: case 221: return "i";
  case 227: case 232: case 233: return "triii"; case 228: return "iiii"; case 229: case 234: case 235: case 236: case 237: case 238: case 239: case 240: case 241: case 242: return "triiii"; case 230: case 231: return "triiiiii";
  case 245: return "trI"; case 246: return "iilL"; case 247: return "il"; case 249: case 254: return "i"; case 250: return "iiiL"; case 251: return "iiP"; // switch on 32 bits
  case 321: return "tri"; case 331: case 332: return "ilI"; case 401: case 402: return "trii";
  default: return "?";
  }
}
inline bool terminator(unsigned op) { return op == 4416 || op == 4448 || op == 4449 || op == 5294 || op == 249 || op == 250 || op == 251 || op == 252 || op == 253 || op == 254 || op == 255; }
// position in the logical layout of a module
inline unsigned section(unsigned op) {
  switch (op) {
  case 17: return 0; case 10: return 1; case 11: return 2; case 14: return 3; case 15: return 4; case 16: case 331: return 5;
  case 7: case 3: case 2: case 4: return 6; case 5: case 6: return 7; case 330: return 8; case 71: case 72: case 332: case 73: case 74: case 75: return 9;
  case 54: case 55: case 56: return 11;
  default: return 10;
  }
}
struct Ins { unsigned op, n; const unsigned *w; unsigned at; }; // n operand words w[0..n)
inline unsigned bytes0(unsigned w) { return (w & 0xff) == 0 || (w & 0xff00) == 0 || (w & 0xff0000) == 0 || (w & 0xff000000) == 0; }

// visits the operands of one instruction: f(kind, index of operand word); kind as in layout, strings word by word as 's'. false: malformed
template <class F> bool operands(const Ins &in, F f) {
  const char *l = layout(in.op); unsigned k = 0;
  if (l[0] == '?') return false;
  for (; *l; ++l) {
    if (*l == 'I' || *l == 'L') { bool more = l[1] != 0; (void)more; char c = *l == 'I' ? 'i' : 'l'; if (in.op == 3) { if (k < in.n) f('i', k++); continue; } while (k < in.n) f(c, k++); continue; }
    if (*l == 'P') { if ((in.n - k) % 2) return false; while (k < in.n) { f('l', k++); f('i', k++); } continue; }
    if (*l == 'M') { if (k < in.n) { f('l', k++); while (k < in.n) f('i', k++); } continue; } // image operand mask, ids
    if (*l == 's') { if (in.op == 3 && k == in.n) continue; bool end = false; while (k < in.n && !end) { end = bytes0(in.w[k]); f('s', k++); } if (!end) return false; continue; }
    if (k >= in.n) return false;
    f(*l, k++);
  }
  return k == in.n;
}
// splits a stream (without header) into instructions; returns their number or ~0u when the lengths do not tile the stream
inline unsigned split(const unsigned *w, unsigned n, Ins *out, unsigned max) {
  unsigned at = 0, k = 0;
  while (at < n) {
    unsigned len = sym_concretize(w[at] >> 16), op = sym_concretize(w[at] & 0xffff);
    if (len == 0 || at + len > n || k >= max) return ~0u;
    out[k].op = op; out[k].n = len - 1; out[k].w = w + at + 1; out[k].at = at; ++k; at += len;
  }
  return k;
}
inline unsigned resultId(const Ins &in) { const char *l = layout(in.op); if (l[0] == 'r') return in.w[0]; if (l[0] == 't' && l[1] == 'r') return in.w[1]; return 0; }

// Structural validity of a complete stream: header, tiling, section order, functions, blocks, ids. Returns number of instructions.
inline unsigned validate(const unsigned *w, unsigned n, unsigned version, Ins *ins, unsigned max, bool structure = true, bool ids = true) {
  // what a caller does not ask about merely ends its examination when it is broken
  auto S = [&](bool c, const char *m) { if (structure) sym_assert(c, m); else if (!c) sym_assume(false); };
  auto I = [&](bool c, const char *m) { if (ids) sym_assert(c, m); else if (!c) sym_assume(false); };
  S(n >= 5 && w[0] == 0x07230203, "starts with the magic number");
  S(w[1] == version, "header carries the module's version");
  S(w[4] == 0, "schema word is reserved");
  const unsigned bound = w[3];
  unsigned k = split(w + 5, n - 5, ins, max);
  S(k != ~0u, "instruction lengths tile the stream exactly");
  if (structure) for (unsigned i = 0; i < k; ++i) operands(ins[i], [&](char c, unsigned o) { if (c == 'r') sym_assert(ins[i].w[o] < bound, "the bound exceeds every id"); });
  bool defined[512]; for (unsigned i = 0; i < 512; ++i) defined[i] = false;
  I(bound <= 512, "ids stay dense"); unsigned defs = 0;
  for (unsigned i = 0; i < k; ++i) {
    unsigned r = 0; bool ok = operands(ins[i], [&](char c, unsigned o) { if (c == 'r') { r = ins[i].w[o]; I(r != 0 && r < bound, "result ids are non-zero and below the bound"); } });
    S(ok, "instruction carries the operands its opcode requires");
    if (r) { I(!defined[r], "no two instructions share a result id"); defined[r] = true; ++defs; }
  }
  I(bound == defs + 1, "the bound is one more than the number of results");
  for (unsigned i = 0; i < k; ++i) operands(ins[i], [&](char c, unsigned o) { if (c == 'i' || c == 't') { unsigned x = ins[i].w[o]; I(x != 0 && x < bound && defined[x], "every reference resolves to a defined id"); } });
  // logical layout
  unsigned sec = 0, st = 0; bool bodies = false, models = false; // st: 0 outside, 1 in the function head, 2 in a block, 3 between blocks
  bool vars = true;
  for (unsigned i = 0; i < k; ++i) {
    unsigned op = ins[i].op, s = st ? 11 : section(op);
    if (st == 0) {
      S(s >= sec, "sections appear in the order of the logical layout"); sec = s;
      if (op == 14) { S(!models, "one memory model"); models = true; }
      if (s == 11) { S(op == 54, "functions begin with OpFunction"); st = 1; if (i + 1 < k) { unsigned j = i + 1; while (j < k && ins[j].op == 55) ++j; bool decl = j < k && ins[j].op == 56; S(!decl || !bodies, "declarations precede definitions"); if (!decl) bodies = true; } }
    } else if (op == 55) S(st == 1, "parameters directly follow OpFunction");
    else if (op == 248) { S(st == 1 || st == 3, "a block begins after the previous one ended"); st = 2; vars = true; }
    else if (op == 56) { S(st == 1 || st == 3, "a function ends behind its last block"); st = 0; }
    else { S(st == 2, "instructions of a function are inside blocks"); S(op != 54 && section(op) == 10, "no module level instruction inside a function");
      if (op == 59) S(vars, "variables lead the block"); else if (op != 8 && op != 317) vars = false;
      if (terminator(op)) st = 3; }
  }
  S(st == 0, "the last function is ended"); S(models, "the memory model is declared");
  return k;
}
