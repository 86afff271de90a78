// S01: histories of String operations against plain byte strings (contents never contain the terminator).
#include "common.h"
#include "spvgentwo/String.h"
using namespace spvgentwo;
struct Model { char d[32]; unsigned n = 0; };
static bool eq(const Model &a, const Model &b) { if (a.n != b.n) return false; for (unsigned i = 0; i < a.n; ++i) if (a.d[i] != b.d[i]) return false; return true; }
static void same(const String &s, const Model &m) {
  sym_assert(s.size() == m.n, "length is that of the described byte string");
  for (unsigned i = 0; i < m.n; ++i) sym_assert(s.c_str()[i] == m.d[i], "bytes are those of the described byte string");
  if (s.c_str() != nullptr && s.Vector<char>::size() != 0) sym_assert(s.c_str()[m.n] == 0, "zero-terminated");
  else sym_assert(m.n == 0, "only an empty string has no storage");
  sym_assert(s.end() == s.begin() + m.n, "iteration covers the bytes");
  if (m.n) { sym_assert(s.front() == m.d[0] && s.back() == m.d[m.n - 1], "front() and back()"); }
}
static void ins(Model &m, unsigned pos, const char *p, unsigned c) { for (unsigned i = m.n; i-- > pos;) m.d[i + c] = m.d[i]; for (unsigned i = 0; i < c; ++i) m.d[pos + i] = p[i]; m.n += c; }
static char ch(const char *nm) { char c = (char)sym_u8(nm); sym_assume(c != 0); return c; }
// a C string of exactly fitting storage, so that reading behind its terminator is an error
struct CStr { char *p; unsigned n; CStr(unsigned n_) : n(n_) { p = (char *)malloc(n + 1); for (unsigned i = 0; i < n; ++i) p[i] = ch("arg"); p[n] = 0; } ~CStr() { free(p); } };
static unsigned maxLen;
static void step(AuditAllocator &al, String &A, Model &a, String &B, Model &b) {
  switch (sym_choose(16, "op")) {
  case 0: { CStr s(sym_choose(maxLen, "len")); A = s.p; a.n = 0; ins(a, 0, s.p, s.n); break; }
  case 1: { CStr s(sym_choose(maxLen, "len")); if (sym_choose(2, "how")) A += s.p; else A.append(s.p); ins(a, a.n, s.p, s.n); if (!s.n && a.n) sym_cover("append nothing"); break; }
  case 2: { CStr s(1 + sym_choose(maxLen - 1, "len")); unsigned k = 1 + sym_choose(s.n + 1, "part"); A.append(s.p, k); ins(a, a.n, s.p, k > s.n ? s.n : k); if (k < s.n) sym_cover("append a part"); break; }
  case 3: A += B; ins(a, a.n, b.d, b.n); break;
  case 4: { Model c = a; A += A; ins(a, a.n, c.d, c.n); if (c.n) sym_cover("append to itself"); break; }
  case 5: { String t = A + B; Model m = a; ins(m, m.n, b.d, b.n); same(t, m); break; }
  case 6: { CStr s(sym_choose(maxLen, "len")); String t = A + (const char *)s.p; Model m = a; ins(m, m.n, s.p, s.n); same(t, m); break; }
  case 7: { CStr s(sym_choose(maxLen, "len")); unsigned pos = sym_choose(a.n + 1, "pos"); char *r = A.insert(pos, (const char *)s.p); ins(a, pos, s.p, s.n); if (a.n) sym_assert(r == A.begin() + pos, "insert returns the inserted position"); if (pos && s.n > 1 && pos + s.n < a.n) sym_cover("insert in the middle"); break; }
  case 8: { CStr s(1 + sym_choose(maxLen - 1, "len")); unsigned pos = sym_choose(a.n + 1, "pos"), k = 1 + sym_choose(s.n, "part"); A.insert(pos, (const char *)s.p, k); ins(a, pos, s.p, k); break; }
  case 9: { unsigned pos = sym_choose(a.n + 1, "pos"); A.insert(pos, B); ins(a, pos, b.d, b.n); if (!b.n) sym_cover("insert an empty string"); break; }
  case 10: { // any offset and length
    sgt_size_t off = sym_u64("offset"), len = sym_u64("length");
    String t = A.substr(off, len); Model m;
    for (unsigned i = 0; i < a.n; ++i) if (i >= off && i - off < len) m.d[m.n++] = a.d[i];
    same(t, m); if (m.n && m.n < a.n) sym_cover("proper substring"); break; }
  case 11: { char c = ch("c"); char *r = A.emplace_back(c); ins(a, a.n, &c, 1); sym_assert(r && *r == c, "emplace_back returns the new byte"); break; }
  case 12: { const char c[3] = {ch("c"), ch("c"), ch("c")}; A.emplace_back_args(c[0], (char)c[1], (char)c[2]); ins(a, a.n, c, 3); break; }
  case 13: { if (sym_choose(2, "self")) { String &r = A; A = r; } else { A = B; a = b; } break; }
  case 14: { String t(A); same(t, a); t += "x"; Model m = a; ins(m, m.n, "x", 1); same(t, m); String u(static_cast<String &&>(t)); same(u, m); A = static_cast<String &&>(u); a = m; break; }
  case 15: { CStr s(1 + sym_choose(maxLen - 1, "len")); unsigned k = sym_choose(s.n + 1, "part"); String t(&al, s.p, k); Model m; ins(m, 0, s.p, k ? k : s.n); same(t, m); A = static_cast<String &&>(t); a = m; break; }
  }
}
void harness_main() {
  AuditAllocator al; const unsigned steps = (unsigned)sym_param("steps", 2); maxLen = (unsigned)sym_param("len", 4);
  {
    Model a, b; String A(&al), B(&al);
    switch (sym_choose(4, "initial")) { case 0: break; case 1: A = ""; break; case 2: { CStr s(2); A = String(&al, s.p); ins(a, 0, s.p, 2); break; } case 3: { CStr s(3); A = s.p; ins(a, 0, s.p, 3); A.reserve(12); break; } }
    switch (sym_choose(3, "other")) { case 0: break; case 1: B = ""; break; case 2: { CStr s(2); B = s.p; ins(b, 0, s.p, 2); break; } }
    same(A, a); same(B, b);
    for (unsigned i = 0; i < steps; ++i) { step(al, A, a, B, b); same(A, a); same(B, b); }
    // comparison and hashing
    bool e = eq(a, b);
    sym_assert((A == B) == e && (B == A) == e, "strings compare equal exactly when their bytes are equal");
    if (e) { sym_assert(hash<String>(A) == hash<String>(B), "equal strings have equal hashes"); if (a.n > 1) sym_cover("equal strings"); }
    CStr q(sym_choose(3, "probe length")); Model m; ins(m, 0, q.p, q.n);
    sym_assert((A == (const char *)q.p) == eq(a, m), "a string equals a C string exactly when their bytes are equal");
    if (a.n) { CStr p(a.n); bool pe = true; for (unsigned i = 0; i < a.n; ++i) if (p.p[i] != a.d[i]) pe = false; sym_assert((A == (const char *)p.p) == pe, "a string equals a C string of its length exactly when their bytes are equal"); }
    sym_assert(stringLength(q.p) == q.n + 1 && stringLength(nullptr) == 0, "stringLength counts the terminator");
    sym_observe(a.n); for (unsigned i = 0; i < a.n; ++i) sym_observe((unsigned char)A[i]);
  }
  sym_assert(al.used == 0, "all memory is returned");
}
