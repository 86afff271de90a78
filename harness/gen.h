// Generator of well-formed SPIR-V streams: a fixed skeleton plus chosen features, literals symbolic, ids numbered by a chosen scheme.
#pragma once
#include "oracle.h"

struct Gen {
  unsigned w[512]; bool idAt[512]; unsigned n = 0; unsigned scheme = 0; // idAt: the word is an id
  unsigned bodyEnds = 0; // how the skeleton's block ends
  unsigned id(unsigned k) { return scheme == 0 ? k : scheme == 1 ? 100 - k : 3 + 7 * k; }
  unsigned bound() { return scheme == 0 ? 100 : scheme == 1 ? 101 : 1000; }
  unsigned at = 0;
  void op(unsigned o) { at = n; put(o); }
  void put(unsigned x) { sym_assert(n < 512, "harness buffer"); idAt[n] = false; w[n++] = x; w[at] = (w[at] & 0xffff) | (n - at) << 16; }
  void i(unsigned k) { put(id(k)); idAt[n - 1] = true; }
  void lit() { put(sym_u32("literal")); }
  // a string of len bytes, symbolic but not zero, padded with zeros
  void str(unsigned len, bool concrete = false) {
    unsigned words = len / 4 + 1;
    for (unsigned q = 0; q < words; ++q) {
      unsigned x = 0;
      for (unsigned b = 0; b < 4 && q * 4 + b < len; ++b) { unsigned c; if (concrete) c = 'a' + q; else { c = sym_u8("char"); sym_assume(c != 0); } x |= c << 8 * b; }
      put(x);
    }
  }
  void o(unsigned c) { op(c); }
  // instructions of a block without side conditions of their own: any operands will do
  static bool isPlain(unsigned x) {
    if (layout(x)[0] == '?') return false;
    return x == 12 || x == 57 || (x >= 65 && x <= 68) || (x >= 77 && x <= 152) || (x >= 154 && x <= 221) || x == 321 || (x >= 400 && x <= 402);
  }
  static unsigned plainCount() { unsigned c = 0; for (unsigned x = 0; x < 403; ++x) c += isPlain(x); return c; }
  static unsigned plain(unsigned k) { for (unsigned x = 0; x < 403; ++x) if (isPlain(x) && k-- == 0) return x; return 0; }
  void any(unsigned x, unsigned own) {
    o(x);
    for (const char *l = layout(x); *l; ++l) switch (*l) {
      case 't': i(2); break; case 'r': i(own); break; case 'i': i(3); break; case 'l': lit(); break; case 's': str(sym_choose(5)); break;
      case 'I': { unsigned c = sym_choose(3); for (unsigned q = 0; q < c; ++q) i(q ? 3 : 14); break; }
      case 'L': { unsigned c = sym_choose(3); for (unsigned q = 0; q < c; ++q) lit(); break; }
      case 'M': { unsigned c = x == 88 || x == 90 || x == 92 || x == 94 ? 1 + sym_choose(2) : sym_choose(3); if (c == 1) { put(1); i(14); } if (c == 2) put(0); break; }
    }
  }
  static constexpr unsigned Sections = 18, Features = 65;
  // emits feature f if it belongs to section s; k: number of this feature's own ids (slot)
  void feature(unsigned f, unsigned s, unsigned k) {
    unsigned own = 30 + 8 * k; // ids own..own+7
    switch (f) {
    case 0: if (s == 0) { o(17); put(6 + k); } break;
    case 1: if (s == 1) { o(10); str(3 + 2 * k + sym_choose(2), true); } break;
    case 2: if (s == 2) { o(11); i(own); str(4 - k, true); } break;
    case 3: if (s == 5) { o(16); i(6); put(17); lit(); lit(); lit(); } break;        // LocalSize x y z
    case 4: if (s == 5) { o(331); i(6); put(38); i(3); i(3); i(3); } break;          // LocalSizeId
    case 5: if (s == 5) { o(16); i(6); put(sym_choose(2) ? 7 : 8); } break;
    case 6: if (s == 6) { o(7); i(own); str(sym_choose(6)); } break;
    case 7: if (s == 6) { o(3); lit(); lit(); } break;
    case 8: if (s == 6) { o(7); i(own); str(1); o(3); put(2); lit(); i(own); if (sym_choose(2)) { str(sym_choose(5)); o(2); str(3); } } break;
    case 9: if (s == 6) { o(4); str(sym_choose(5)); } break;
    case 10: if (s == 7) { o(5); i(3); str(sym_choose(9)); } break;
    case 11: if (s == 7) { o(6); i(13); lit(); str(sym_choose(5)); } break;
    case 12: if (s == 8) { o(330); str(sym_choose(5)); } break;
    case 13: if (s == 9) { o(71); i(9); put(30); lit(); } break;                       // Location
    case 14: if (s == 9) { o(71); i(9); put(14); } break;                              // Flat
    case 15: if (s == 9) { o(71); i(6); put(41); str(sym_choose(6)); put(sym_choose(2)); } break; // LinkageAttributes name type
    case 16: if (s == 9) { o(72); i(13); lit(); put(35); lit(); } break;               // member Offset
    case 17: if (s == 9) { o(71); i(9); put(11); put(sym_choose(2) ? 0 : 15); } break; // BuiltIn
    case 18: if (s == 9) { o(71); i(9); put(18); o(73); i(own); o(74); i(own); i(9); i(6); } break; // group decorate
    case 19: if (s == 9) { o(73); i(own); o(75); i(own); i(13); lit(); i(13); lit(); } break;
    case 20: if (s == 10) { o(43); i(2); i(own); put(own); } break;
    case 21: if (s == 10) { o(50); i(2); i(own); put(own + 1); } break;
    case 22: if (s == 10) { o(21); i(own); put(64); put(sym_choose(2)); o(43); i(own); i(own + 1); put(9 + k); put(1); } break;
    case 23: if (s == 10) { o(23); i(own); i(1); put(2 + k); o(44); i(own); i(own + 1); i(14); i(14); if (k) i(14); } break;
    case 24: if (s == 10) { o(30); i(own); unsigned c = sym_choose(3); for (unsigned q = 0; q < c; ++q) i(q ? 2 : 1); } break;
    case 25: if (s == 10) { o(25); i(own); i(1); put(1); put(0); put(k); put(0); put(2); put(1 + k); if (sym_choose(2)) put(2); } break; // image, optional access
    case 26: if (s == 10) { o(33); i(own); i(1); unsigned c = sym_choose(3); for (unsigned q = 0; q < c; ++q) i(2); } break;
    case 27: if (s == 10) { o(28); i(own); i(1 + k); i(3); } break;
    case 28: if (s == 10) { o(29); i(own); i(1 + k); } break;
    case 29: if (s == 10) { o(46); i(sym_choose(2) ? 2 : 13); i(own); } break;
    case 30: if (s == 10) { o(24); i(own); i(12); put(2 + k); o(39 + 0); i(8); put(0); } break; // matrix; forward pointer
    case 31: if (s == 11) { o(59); i(8); i(own); put(6); if (sym_choose(2)) i(3); } break;    // Private variable, optional initializer
    case 32: if (s == 12) { o(1); i(2); i(own); } break;
    case 33: if (s == 6) { o(7); i(own); str(2); } if (s == 13) { o(8); i(own); lit(); lit(); if (sym_choose(2)) o(317); } break;
    case 34: if (s == 14) { o(54); i(4); i(own); lit(); i(5); o(56); } break;
    case 35: if (s == 14) { o(54); i(4); i(own); put(sym_choose(3)); i(16); o(55); i(2); i(own + 1); o(56); } break;
    // body of the skeleton's first block
    case 36: if (s == 15) { o(61); i(2); i(own); i(9); unsigned c = sym_choose(6); if (c == 1) put(0); if (c == 2) put(1); if (c == 3) { put(2); lit(); } if (c == 4) { put(3); lit(); } if (c == 5) { put(0x2a | 1); lit(); i(3); } } break; // memory access: volatile, aligned, both, aligned|make visible|non private
    case 37: if (s == 15) { o(62); i(9); i(3); unsigned c = sym_choose(4); if (c == 1) put(4); if (c == 2) { put(2); lit(); } if (c == 3) { put(6); lit(); } } break;
    case 38: if (s == 15) { o(63); i(9); i(9); unsigned c = sym_choose(2); if (c) put(1); } break;
    case 39: if (s == 15) { o(128); i(2); i(own); i(3); i(3); } break;
    case 40: if (s == 15) { o(65); i(8); i(own); i(9); unsigned c = sym_choose(3); for (unsigned q = 0; q < c; ++q) i(3); } break;
    case 41: if (s == 15) { o(81); i(1); i(own); i(15); lit(); if (sym_choose(2)) lit(); } break;
    case 42: if (s == 15) { o(79); i(12); i(own); i(15); i(15); lit(); lit(); lit(); lit(); } break;
    case 43: if (s == 15) { o(57); i(4); i(own); i(6); unsigned c = sym_choose(3); for (unsigned q = 0; q < c; ++q) i(3); } break;
    case 44: if (s == 2) { o(11); i(own); str(9 + k, true); } if (s == 15) { o(12); i(1); i(own + 1); i(own); lit(); unsigned c = sym_choose(3); for (unsigned q = 0; q < c; ++q) i(14); } break;
    case 45: if (s == 15) { o(87); i(12); i(own); i(15); i(15); unsigned c = sym_choose(5); if (c == 1) put(0); if (c == 2) { put(1); i(14); } if (c == 3) { put(0x9); i(14); i(3); } if (c == 4) { put(0x8c); i(14); i(14); i(3); i(14); } } break; // bias; bias|const offset; grad|const offset|min lod
    case 46: if (s == 15) { o(88); i(12); i(own); i(15); i(15); put(2 + 8 * sym_choose(2)); i(14); if (w[n - 2] == 10) i(3); } break; // lod, lod|const offset
    case 47: if (s == 15) { o(98); i(12); i(own); i(15); i(15); if (sym_choose(2)) { put(64); i(3); } } break;
    case 48: if (s == 15) { o(99); i(15); i(15); i(15); if (sym_choose(2)) { put(0x4000); } } break;
    case 49: if (s == 15) o(0); break;
    case 50: if (s == 6) { o(7); i(own); str(2); } if (s == 15) { o(8); i(own); lit(); lit(); if (sym_choose(2)) o(317); } break;
    // further blocks: each begins with a label and ends with a terminator; ids own.. are its labels
    case 51: if (s == 16) { o(248); i(own); o(249); i(own + 1); o(248); i(own + 1); o(253); } break;
    case 52: if (s == 16) { o(248); i(own); o(247); i(own + 2); put(sym_choose(3)); o(250); i(11); i(own + 1); i(own + 2); if (sym_choose(2)) { lit(); lit(); } o(248); i(own + 1); o(252); o(248); i(own + 2); o(245); i(2); i(own + 3); i(3); i(own); o(253); } break;
    case 53: if (s == 16) { o(248); i(own); o(246); i(own + 2); i(own + 1); unsigned c = sym_choose(4); if (c == 0) put(0); if (c == 1) put(1); if (c == 2) { put(8); lit(); } if (c == 3) { put(0x31); lit(); lit(); } o(250); i(11); i(own + 1); i(own + 2); o(248); i(own + 1); o(249); i(own); o(248); i(own + 2); o(255); } break; // loop merge with dependency length; unroll|min|max iterations
    case 54: if (s == 16) { o(248); i(own); o(247); i(own + 2); put(0); o(251); i(3); i(own + 2); unsigned c = sym_choose(3); for (unsigned q = 0; q < c; ++q) { lit(); i(own + 1); } o(248); i(own + 1); o(249); i(own + 2); o(248); i(own + 2); o(253); } break; // switch on a 32 bit selector
    case 55: if (s == 16) { o(248); i(own); o(245); i(2); i(own + 1); unsigned c = sym_choose(3); for (unsigned q = 0; q < c; ++q) { i(3); i(7); } o(254); i(own + 1); } break;
    case 56: if (s == 16) { o(248); i(own); o(4416); } break;                         // OpTerminateInvocation
    case 57: if (s == 16) { o(248); i(own); o(sym_choose(2) ? 4448 : 4449); } break;  // OpIgnoreIntersectionKHR, OpTerminateRayKHR
    case 58: if (s == 10) { o(52); i(2); i(own); put(128); i(3); i(3); } break;       // OpSpecConstantOp IAdd
    case 59: if (s == 9) { o(332); i(9); put(5634); i(9); } break;                      // OpDecorateId CounterBuffer
    case 60: if (s == 9) { o(5632); i(9); put(5635); str(sym_choose(5)); } break;       // OpDecorateString UserSemantic
    case 61: if (s == 10) { o(26); i(own + 1); o(45); i(own + 1); i(own); put(sym_choose(5)); put(sym_choose(2)); put(sym_choose(2)); } break; // constant sampler
    case 62: if (s == 15) { o(61); i(2); i(own); i(9); put(0); o(61); i(2); i(own + 1); i(9); } break;
    case 63: if (s == 4) { o(15); put(5); i(own); str(1 + sym_choose(5), true); if (sym_choose(2)) i(9); } if (s == 17) { o(54); i(4); i(own); put(0); i(5); o(248); i(own + 1); o(253); o(56); } break; // a further entry point
    case 64: if (s == 15) any(plain(sym_choose(plainCount())), own); break;
    }
  }
  // a module with one helper function %6 and (if ep) an entry point function %20
  void module(const unsigned *f, unsigned k, bool ep, unsigned version, unsigned generator) {
    at = 0; n = 0; w[n++] = 0x07230203; w[n++] = version; w[n++] = generator; w[n++] = bound(); w[n++] = 0;
    for (unsigned s = 0; s < Sections; ++s) {
      if (s == 0) { o(17); put(1); }
      if (s == 3) { o(14); put(0); put(1); }
      if (s == 4 && ep) { o(15); put(4); i(20); str(1 + sym_choose(4)); unsigned c = sym_choose(3); for (unsigned q = 0; q < c; ++q) i(9); }
      if (s == 10) {
        o(22); i(1); put(32); o(21); i(2); put(32); put(0); o(43); i(2); i(3); put(4); o(19); i(4); o(33); i(5); i(4); o(32); i(8); put(6); i(2);
        o(20); i(10); o(41); i(10); i(11); o(23); i(12); i(1); put(4); o(30); i(13); i(1); i(2); o(43); i(1); i(14); put(0x3f800000); o(44); i(12); i(15); i(14); i(14); i(14); i(14); o(33); i(16); i(4); i(2);
      }
      if (s == 11) { o(59); i(8); i(9); put(6); }
      if (s == 15) { o(54); i(4); i(6); put(0); i(5); o(248); i(7); }
      for (unsigned q = 0; q < k; ++q) feature(f[q], s, q);
      if (s == 15) { if (bodyEnds) o(253); else { o(249); i(17); o(248); i(17); o(253); } }
      if (s == 16) { o(56); if (ep) { o(54); i(4); i(20); put(0); i(5); o(248); i(21); o(57); i(4); i(22); i(6); o(253); o(56); } }
    }
  }
};
