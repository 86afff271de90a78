#include "expr.h"
#include <algorithm>
#include <cstdio>
ExprPool EP;

uint64_t evalBin(K k, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskW(w); a &= m; b &= m;
  switch (k) {
  case K::Add: return (a + b) & m;
  case K::Sub: return (a - b) & m;
  case K::Mul: return (a * b) & m;
  case K::UDiv: return b ? a / b : m;
  case K::URem: return b ? a % b : a;
  case K::SDiv: { int64_t x = sextW(a, w), y = sextW(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
  case K::SRem: { int64_t x = sextW(a, w), y = sextW(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case K::And: return a & b;
  case K::Or: return a | b;
  case K::Xor: return a ^ b;
  case K::Shl: return b >= w ? 0 : (a << b) & m;
  case K::LShr: return b >= w ? 0 : a >> b;
  case K::AShr: { int64_t x = sextW(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
  case K::Eq: return a == b;
  case K::Ult: return a < b;
  case K::Ule: return a <= b;
  case K::Slt: return sextW(a, w) < sextW(b, w);
  case K::Sle: return sextW(a, w) <= sextW(b, w);
  default: assert(0); return 0;
  }
}

ExprPool::ExprPool() { table.reserve(1 << 16); }

Expr *ExprPool::mk(K k, unsigned w, uint64_t v, Expr *a, Expr *b, Expr *c) {
  Key key{k, (uint8_t)w, v, a, b, c};
  auto it = table.find(key);
  if (it != table.end()) return it->second;
  if (slab.empty() || slabPos == slabN) { slab.push_back((Expr *)::operator new(sizeof(Expr) * slabN)); slabPos = 0; }
  Expr *e = new (slab.back() + slabPos++) Expr();
  e->k = k; e->w = (uint8_t)w; e->v = v; e->a = a; e->b = b; e->c = c; e->id = nextId++;
  e->undef = k == K::Undef || (a && a->undef) || (b && b->undef) || (c && c->undef);
  table.emplace(key, e); ++count;
  return e;
}
Expr *ExprPool::konst(uint64_t v, unsigned w) { return mk(K::Const, w, v & maskW(w), nullptr, nullptr, nullptr); }
Expr *ExprPool::undef(unsigned w) { return mk(K::Undef, w, 0, nullptr, nullptr, nullptr); }
Expr *ExprPool::var(unsigned w, const std::string &name) {
  unsigned i = (unsigned)varW.size();
  varW.push_back(w); varN.push_back(name);
  Expr *e = mk(K::Var, w, i, nullptr, nullptr, nullptr);
  varE.push_back(e);
  return e;
}

static bool isC(Expr *e) { return e->k == K::Const; }
static bool isC(Expr *e, uint64_t v) { return e->k == K::Const && e->v == v; }

unsigned ExprPool::tz(Expr *e, int d) {
  switch (e->k) {
  case K::Const: return e->v ? (unsigned)__builtin_ctzll(e->v) : e->w;
  default: break;
  }
  if (d == 0) return 0;
  switch (e->k) {
  case K::Add: case K::Sub: case K::Or: case K::Xor: return std::min(tz(e->a, d - 1), tz(e->b, d - 1));
  case K::And: return std::max(tz(e->a, d - 1), tz(e->b, d - 1));
  case K::Mul: return std::min<unsigned>(e->w, tz(e->a, d - 1) + tz(e->b, d - 1));
  case K::Shl: return isC(e->b) ? std::min<unsigned>(e->w, (unsigned)std::min<uint64_t>(e->b->v, e->w) + tz(e->a, d - 1)) : tz(e->a, d - 1);
  case K::Ite: return std::min(tz(e->b, d - 1), tz(e->c, d - 1));
  case K::ZExt: case K::SExt: { unsigned t = tz(e->a, d - 1); return t == e->a->w ? e->w : t; }
  case K::Concat: { unsigned t = tz(e->b, d - 1); return t == e->b->w ? t + tz(e->a, d - 1) : t; }
  default: return 0;
  }
}
uint64_t ExprPool::umax(Expr *e, int d) {
  uint64_t m = maskW(e->w);
  if (e->k == K::Const) return e->v;
  if (d == 0) return m;
  switch (e->k) {
  case K::And: return std::min(umax(e->a, d - 1), umax(e->b, d - 1));
  case K::URem: if (isC(e->b) && e->b->v) return std::min(e->b->v - 1, umax(e->a, d - 1)); return m;
  case K::UDiv: if (isC(e->b) && e->b->v) return umax(e->a, d - 1) / e->b->v; return m;
  case K::LShr: if (isC(e->b) && e->b->v < 64) return umax(e->a, d - 1) >> e->b->v; return m;
  case K::ZExt: return umax(e->a, d - 1);
  case K::Ite: return std::max(umax(e->b, d - 1), umax(e->c, d - 1));
  case K::Or: case K::Xor: { uint64_t x = umax(e->a, d - 1) | umax(e->b, d - 1); x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32; return x & m; }
  case K::Add: { uint64_t x = umax(e->a, d - 1), y = umax(e->b, d - 1); uint64_t s = x + y; return (s < x || s > m) ? m : s; }
  case K::Mul: { __uint128_t p = (__uint128_t)umax(e->a, d - 1) * umax(e->b, d - 1); return p > m ? m : (uint64_t)p; }
  case K::Shl: if (isC(e->b) && e->b->v < e->w) { __uint128_t p = (__uint128_t)umax(e->a, d - 1) << e->b->v; return p > m ? m : (uint64_t)p; } return m;
  case K::Concat: return (umax(e->a, d - 1) << e->b->w) | umax(e->b, d - 1);
  case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle: case K::Not: return 1;
  default: return m;
  }
}

// is e an Ite tree with constant leaves (bounded size)?
static bool constLeaves(Expr *e, int &budget) {
  if (--budget < 0) return false;
  if (e->k == K::Const) return true;
  if (e->k == K::Ite) return constLeaves(e->b, budget) && constLeaves(e->c, budget);
  return false;
}
static bool constIte(Expr *e) { if (e->k != K::Ite) return false; int b = 129; return constLeaves(e, b); }

Expr *ExprPool::notE(Expr *a) {
  assert(a->w == 1);
  if (isC(a)) return konst(a->v ^ 1, 1);
  if (a->k == K::Not) return a->a;
  if (a->k == K::Ult) return bin(K::Ule, a->b, a->a);
  if (a->k == K::Ule) return bin(K::Ult, a->b, a->a);
  if (a->k == K::Slt) return bin(K::Sle, a->b, a->a);
  if (a->k == K::Sle) return bin(K::Slt, a->b, a->a);
  return mk(K::Not, 1, 0, a, nullptr, nullptr);
}

Expr *ExprPool::bin(K k, Expr *a, Expr *b) { return binS(k, a, b); }

Expr *ExprPool::binS(K k, Expr *a, Expr *b) {
  assert(a->w == b->w);
  unsigned w = a->w; uint64_t m = maskW(w);
  if (w == 1) { if (k == K::Add || k == K::Sub) k = K::Xor; else if (k == K::Mul) k = K::And; }
  bool cmp = k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle;
  unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) return konst(evalBin(k, a->v, b->v, w), rw);
  bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);

  switch (k) {
  case K::Add:
    if (isC(b, 0)) return a;
    if (isC(b) && a->k == K::Add && isC(a->b)) return bin(K::Add, a->a, konst(a->b->v + b->v, w));
    if (isC(b) && constIte(a)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
    if (a->k == K::Add && isC(a->b)) return bin(K::Add, bin(K::Add, a->a, b), a->b);
    if (b->k == K::Add && isC(b->b)) return bin(K::Add, bin(K::Add, a, b->a), b->b);
    if (w == 1) return bin(K::Xor, a, b);
    // (x - y) + y
    if (a->k == K::Sub && a->b == b) return a->a;
    if (b->k == K::Sub && b->b == a) return b->a;
    break;
  case K::Sub:
    if (a == b) return konst(0, w);
    if (isC(b)) return bin(K::Add, a, konst(0 - b->v, w));
    if (a->k == K::Add && a->a == b) return a->b;
    if (a->k == K::Add && a->b == b) return a->a;
    if (a->k == K::Add && isC(a->b)) { return bin(K::Add, bin(K::Sub, a->a, b), a->b); }
    if (b->k == K::Add && isC(b->b)) { return bin(K::Add, bin(K::Sub, a, b->a), konst(0 - b->b->v, w)); }
    break;
  case K::Mul:
    if (isC(b, 0)) return b;
    if (isC(b, 1)) return a;
    if (isC(b) && (b->v & (b->v - 1)) == 0) return bin(K::Shl, a, konst(__builtin_ctzll(b->v), w));
    if (isC(b) && constIte(a)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
    break;
  case K::UDiv:
    if (isC(b, 1)) return a;
    if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return bin(K::LShr, a, konst(__builtin_ctzll(b->v), w));
    if (isC(b) && b->v && umax(a) < b->v) return konst(0, w);
    if (isC(b) && b->v && w > 16) { uint64_t mx = std::max(umax(a), b->v); unsigned n = 64 - __builtin_clzll(mx); if (n * 2 <= w) return zext(bin(k, extract(a, 0, n), konst(b->v, n)), w); }
    break;
  case K::URem:
    if (isC(b, 1)) return konst(0, w);
    if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return bin(K::And, a, konst(b->v - 1, w));
    if (isC(b) && b->v && umax(a) < b->v) return a;
    // the remainder of q * d + r (without overflow)
    if (isC(b) && b->v) { Expr *p = a; uint64_t r = 0; if (p->k == K::Add && isC(p->b)) { r = p->b->v; p = p->a; } else if (p->k == K::Or && isC(p->b) && umax(p->a) < (p->b->v & (0 - p->b->v))) { r = p->b->v; p = p->a; } if (p->k == K::ZExt) p = p->a;
      if (p->k == K::Mul && isC(p->b) && p->b->v % b->v == 0) { const __uint128_t top = (__uint128_t)umax(p->a) * p->b->v; if (top <= maskW(p->w) && top + r <= m) return konst(r % b->v, w); } }
    // the remainder of x * 2^k + c by a small constant, piecewise: remainders of narrower numbers
    if (isC(b) && b->v < 4096 && w == 64 && a->k == K::Concat && (isC(a->a) || isC(a->b) || a->b->w == 32)) {
      const uint64_t d = b->v; const unsigned k = a->b->w; Expr *hi = a->a, *lo = a->b; Expr *d32 = konst(d, 32);
      auto small = [&](Expr *x) { if (isC(x)) return konst(x->v % d, 32); return x->w <= 32 ? bin(K::URem, zext(x, 32), d32) : (Expr *)nullptr; };
      Expr *h = small(hi), *l = small(lo);
      if (h && l) { const uint64_t f = (1ull << k) % d; return zext(bin(K::URem, bin(K::Add, bin(K::Mul, h, konst(f, 32)), l), d32), w); }
    }
    if (isC(b) && b->v && w > 16) { uint64_t mx = std::max(umax(a), b->v); unsigned n = 64 - __builtin_clzll(mx); if (n * 2 <= w) return zext(bin(k, extract(a, 0, n), konst(b->v, n)), w); }
    break;
  case K::And:
    if (isC(b, 0)) return b;
    if (isC(b, m)) return a;
    if (a == b) return a;
    if (isC(b) && a->k == K::And && isC(a->b)) return bin(K::And, a->a, konst(a->b->v & b->v, w));
    if (w == 1 && ((a->k == K::Not && a->a == b) || (b->k == K::Not && b->a == a))) return konst(0, 1);
    if (isC(b) && (umax(a) & ~b->v) == 0 && ((b->v & (b->v + 1)) == 0)) return a;
    if (isC(b) && (b->v & (b->v + 1)) == 0) { // low mask
      unsigned n = 64 - __builtin_clzll(b->v);
      if (n < w) return zext(extract(a, 0, n), w);
    }
    if (isC(b) && constIte(a)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
    break;
  case K::Or:
    if (isC(b, 0)) return a;
    if (isC(b, m)) return b;
    if (a == b) return a;
    if (w == 1 && ((a->k == K::Not && a->a == b) || (b->k == K::Not && b->a == a))) return konst(1, 1);
    if (w > 1 && w <= 64) {
      // zext(lo) | (x << n)  => concat
      for (int s = 0; s < 2; ++s) {
        Expr *x = s ? b : a, *y = s ? a : b; // x low, y shifted
        if (y->k == K::Shl && isC(y->b) && y->b->v > 0 && y->b->v < w) {
          unsigned n = (unsigned)y->b->v;
          if (umax(x) <= maskW(n)) return concat(extract(y->a, 0, w - n), extract(x, 0, n));
        }
        if (y->k == K::Concat && isC(y->b, 0)) {
          unsigned n = y->b->w;
          if (umax(x) <= maskW(n)) return concat(y->a, extract(x, 0, n));
        }
      }
    }
    if (isC(b) && constIte(a)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
    break;
  case K::Xor:
    if (isC(b, 0)) return a;
    if (a == b) return konst(0, w);
    if (w == 1 && isC(b, 1)) return notE(a);
    if (isC(b) && a->k == K::Xor && isC(a->b)) return bin(K::Xor, a->a, konst(a->b->v ^ b->v, w));
    if (isC(b) && constIte(a)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
    break;
  case K::Shl:
    if (isC(b, 0)) return a;
    if (isC(b) && b->v >= w) return konst(0, w);
    if (isC(b) && a->k == K::Shl && isC(a->b)) return bin(K::Shl, a->a, konst(a->b->v + b->v > w ? w : a->b->v + b->v, w));
    if (isC(b)) return concat(extract(a, 0, w - (unsigned)b->v), konst(0, (unsigned)b->v));
    break;
  case K::LShr:
    if (isC(b, 0)) return a;
    if (isC(b) && b->v >= w) return konst(0, w);
    if (isC(b)) return zext(extract(a, (unsigned)b->v, w - (unsigned)b->v), w);
    break;
  case K::AShr:
    if (isC(b, 0)) return a;
    if (isC(b) && b->v < w) return sext(extract(a, (unsigned)b->v, w - (unsigned)b->v), w);
    break;
  case K::Eq:
    if (isC(b) && w > 1) { // q * k + r == c without overflow
      Expr *p = a; uint64_t r = 0; if (p->k == K::Add && isC(p->b)) { r = p->b->v; p = p->a; } else if (p->k == K::Or && isC(p->b) && umax(p->a) < (p->b->v & (0 - p->b->v))) { r = p->b->v; p = p->a; } if (p->k == K::ZExt) p = p->a;
      if (p->k == K::Mul && isC(p->b) && p->b->v) { const uint64_t k2 = p->b->v; const __uint128_t top = (__uint128_t)umax(p->a) * k2;
        if (top <= maskW(p->w) && top + r <= m) { if (b->v < r || (b->v - r) % k2) return konst(0, 1); if ((b->v - r) / k2 > maskW(p->w)) return konst(0, 1); return bin(K::Eq, p->a, konst((b->v - r) / k2, p->w)); } }
    }
    if (a == b) return konst(1, 1);
    if (w == 1 && isC(b)) return b->v ? a : notE(a);
    if (isC(b)) {
      if (a->k == K::ZExt) { if (b->v > maskW(a->a->w)) return konst(0, 1); return eq(a->a, konst(b->v, a->a->w)); }
      if (a->k == K::SExt) { uint64_t t = b->v & maskW(a->a->w); if (((uint64_t)sextW(t, a->a->w) & m) != b->v) return konst(0, 1); return eq(a->a, konst(t, a->a->w)); }
      if (a->k == K::Add && isC(a->b)) return eq(a->a, konst(b->v - a->b->v, w));
      if (a->k == K::Xor && isC(a->b)) return eq(a->a, konst(b->v ^ a->b->v, w));
      if (a->k == K::Concat) {
        unsigned lw = a->b->w;
        return bin(K::And, eq(a->a, konst(b->v >> lw, a->a->w)), eq(a->b, konst(b->v, lw)));
      }
      if (a->k == K::Ite) {
        if (isC(a->b) || isC(a->c) ) {
          Expr *t = eq(a->b, b), *f = eq(a->c, b);
          return ite(a->a, t, f);
        }
      }
      if (umax(a) < b->v) return konst(0, 1);
      unsigned t = tz(a); if (t && t < 64 && (b->v & maskW(std::min(t, w)))) return konst(0, 1);
    } else {
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return eq(a->a, b->a);
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return eq(a->a, b->a);
      if (a->k == K::Add && b->k == K::Add && isC(a->b) && isC(b->b)) {
        if (a->a == b->a) return konst(a->b->v == b->b->v, 1);
        if (a->b == b->b) return eq(a->a, b->a);
      }
      if (a->k == K::Add && isC(a->b) && a->a == b) return konst(a->b->v == 0, 1);
      if (b->k == K::Add && isC(b->b) && b->a == a) return konst(b->b->v == 0, 1);
      if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w) return bin(K::And, eq(a->a, b->a), eq(a->b, b->b));
    }
    break;
  case K::Ult:
    if (a == b || isC(b, 0)) return konst(0, 1);
    if (isC(a, m)) return konst(0, 1);
    if (isC(b, 1)) return eq(a, konst(0, w));
    if (isC(a, 0)) return notE(eq(b, konst(0, w)));
    if (isC(b) && umax(a) < b->v) return konst(1, 1);
    if (isC(a) && umax(b) <= a->v) return konst(0, 1);
    if (w == 1) return bin(K::And, notE(a), b);
    if (isC(b) && a->k == K::ZExt) { if (b->v > maskW(a->a->w)) return konst(1, 1); return bin(k, a->a, konst(b->v, a->a->w)); }
    if (isC(a) && b->k == K::ZExt) { if (a->v > maskW(b->a->w)) return konst(0, 1); return bin(k, konst(a->v, b->a->w), b->a); }
    if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
    if (isC(b) && constIte(a)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
    if (isC(a) && constIte(b)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
    break;
  case K::Ule:
    if (a == b || isC(a, 0) || isC(b, m)) return konst(1, 1);
    if (isC(b)) return bin(K::Ult, a, konst(b->v + 1, w)); // b != m here
    if (isC(a)) return bin(K::Ult, konst(a->v - 1, w), b);
    if (w == 1) return bin(K::Or, notE(a), b);
    if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
    break;
  case K::Slt:
  case K::Sle:
    if (a == b) return konst(k == K::Sle, 1);
    if (w > 1) { // both known non-negative
      uint64_t h = m >> 1;
      if (umax(a) <= h && umax(b) <= h) return bin(k == K::Slt ? K::Ult : K::Ule, a, b);
      if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
    }
    break;
  default: break;
  }
  return mk(k, rw, 0, a, b, nullptr);
}

Expr *ExprPool::ite(Expr *c, Expr *t, Expr *f) {
  assert(c->w == 1 && t->w == f->w);
  if (isC(c)) return c->v ? t : f;
  if (t == f) return t;
  if (c->k == K::Not) return ite(c->a, f, t);
  if (t->w == 1) {
    if (isC(t) && isC(f)) return t->v ? c : notE(c);
    if (isC(t)) return t->v ? bin(K::Or, c, f) : bin(K::And, notE(c), f);
    if (isC(f)) return f->v ? bin(K::Or, notE(c), t) : bin(K::And, c, t);
  }
  if (f->k == K::Ite && f->b == t) return ite(bin(K::Or, c, f->a), t, f->c);
  if (f->k == K::Ite && f->a == c) return ite(c, t, f->c);
  if (t->k == K::Ite && t->a == c) return ite(c, t->b, f);
  return mk(K::Ite, t->w, 0, c, t, f);
}

Expr *ExprPool::concat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  assert(w <= 64);
  if (isC(hi) && isC(lo)) return konst((hi->v << lo->w) | lo->v, w);
  if (hi->k == K::Undef && lo->k == K::Undef) return undef(w);
  if (isC(hi, 0)) return zext(lo, w);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->v == lo->v + lo->w)
    return extract(hi->a, (unsigned)lo->v, w);
  // right-nested normal form: (h1 . h2) . l  -> h1 . (h2 . l)
  if (hi->k == K::Concat) return concat(hi->a, concat(hi->b, lo));
  if (lo->k == K::Concat) {
    Expr *l = lo->a;
    if (isC(hi) && isC(l)) return concat(konst((hi->v << l->w) | l->v, hi->w + l->w), lo->b);
    if (hi->k == K::Extract && l->k == K::Extract && hi->a == l->a && hi->v == l->v + l->w)
      return concat(extract(hi->a, (unsigned)l->v, hi->w + l->w), lo->b);
  }
  return mk(K::Concat, w, 0, hi, lo, nullptr);
}

Expr *ExprPool::extract(Expr *e, unsigned lo, unsigned w) {
  assert(lo + w <= e->w && w > 0);
  if (lo == 0 && w == e->w) return e;
  switch (e->k) {
  case K::Const: return konst(e->v >> lo, w);
  case K::Undef: return undef(w);
  case K::Extract: return extract(e->a, (unsigned)e->v + lo, w);
  case K::Concat: {
    unsigned lw = e->b->w;
    if (lo + w <= lw) return extract(e->b, lo, w);
    if (lo >= lw) return extract(e->a, lo - lw, w);
    return concat(extract(e->a, 0, lo + w - lw), extract(e->b, lo, lw - lo));
  }
  case K::ZExt: {
    unsigned iw = e->a->w;
    if (lo + w <= iw) return extract(e->a, lo, w);
    if (lo >= iw) return konst(0, w);
    return zext(extract(e->a, lo, iw - lo), w);
  }
  case K::SExt: {
    unsigned iw = e->a->w;
    if (lo + w <= iw) return extract(e->a, lo, w);
    if (lo < iw) return sext(extract(e->a, lo, iw - lo), w);
    break;
  }
  case K::And: case K::Or: case K::Xor:
    if (isC(e->b) || w <= 8) return bin(e->k, extract(e->a, lo, w), extract(e->b, lo, w));
    break;
  case K::Add: case K::Sub: case K::Mul:
    if (lo == 0) return bin(e->k, extract(e->a, 0, w), extract(e->b, 0, w));
    break;
  case K::Ite:
    if (isC(e->b) || isC(e->c) || e->b->k == K::Ite || e->c->k == K::Ite) return ite(e->a, extract(e->b, lo, w), extract(e->c, lo, w));
    break;
  default: break;
  }
  return mk(K::Extract, w, lo, e, nullptr, nullptr);
}
Expr *ExprPool::zext(Expr *e, unsigned w) {
  if (w == e->w) return e;
  assert(w > e->w);
  if (isC(e)) return konst(e->v, w);
  if (e->k == K::Undef) return undef(w);
  if (e->k == K::ZExt) return zext(e->a, w);
  if (constIte(e)) return ite(e->a, zext(e->b, w), zext(e->c, w));
  return mk(K::ZExt, w, 0, e, nullptr, nullptr);
}
Expr *ExprPool::sext(Expr *e, unsigned w) {
  if (w == e->w) return e;
  assert(w > e->w);
  if (isC(e)) return konst((uint64_t)sextW(e->v, e->w), w);
  if (e->k == K::Undef) return undef(w);
  if (e->k == K::SExt) return sext(e->a, w);
  if (e->k == K::ZExt) return zext(e->a, w);
  if (constIte(e)) return ite(e->a, sext(e->b, w), sext(e->c, w));
  return mk(K::SExt, w, 0, e, nullptr, nullptr);
}

const std::vector<uint32_t> &ExprPool::vars(Expr *e) {
  static const std::vector<uint32_t> empty;
  if (e->vars) return *e->vars;
  if (e->k == K::Const || e->k == K::Undef) { e->vars = &empty; return empty; }
  if (e->k == K::Var) { auto *v = new std::vector<uint32_t>{(uint32_t)e->v}; e->vars = v; return *v; }
  // iterative on depth is unnecessary: expressions are kept shallow enough by folding
  const std::vector<uint32_t> &x = vars(e->a);
  if (!e->b && !e->c) { e->vars = &x; return x; }
  const std::vector<uint32_t> *r = &x;
  for (Expr *s : {e->b, e->c}) {
    if (!s) continue;
    const auto &y = vars(s);
    if (y.empty() || &y == r) continue;
    if (r->empty()) { r = &y; continue; }
    if (std::includes(r->begin(), r->end(), y.begin(), y.end())) continue;
    if (std::includes(y.begin(), y.end(), r->begin(), r->end())) { r = &y; continue; }
    auto *n = new std::vector<uint32_t>();
    std::set_union(r->begin(), r->end(), y.begin(), y.end(), std::back_inserter(*n));
    r = n;
  }
  e->vars = r;
  return *r;
}

uint64_t ExprPool::eval(Expr *e, const Model &m) { ++epoch; return evalRec(e, m); }
uint64_t ExprPool::evalRec(Expr *e, const Model &m) {
  if (e->k == K::Const) return e->v;
  if (e->k == K::Undef) return 0;
  if (e->k == K::Var) return e->v < m.size() ? (m[e->v] & maskW(e->w)) : 0;
  if (e->evalEpoch == epoch) return e->evalVal;
  uint64_t r = 0;
  switch (e->k) {
  case K::Not: r = evalRec(e->a, m) ^ 1; break;
  case K::Ite: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
  case K::Concat: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
  case K::Extract: r = (evalRec(e->a, m) >> e->v) & maskW(e->w); break;
  case K::ZExt: r = evalRec(e->a, m); break;
  case K::SExt: r = (uint64_t)sextW(evalRec(e->a, m), e->a->w) & maskW(e->w); break;
  default: r = evalBin(e->k, evalRec(e->a, m), evalRec(e->b, m), e->a->w); break;
  }
  e->evalEpoch = epoch; e->evalVal = r;
  return r;
}

std::string ExprPool::str(Expr *e, int d) {
  static const char *n[] = {"c", "v", "undef", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "not", "ite", "concat", "extract", "zext", "sext"};
  if (e->k == K::Const) return std::to_string(e->v) + ":" + std::to_string(e->w);
  if (e->k == K::Var) return varN[e->v] + "#" + std::to_string(e->v);
  if (d == 0) return "...";
  std::string s = std::string("(") + n[(int)e->k];
  if (e->k == K::Extract) s += "[" + std::to_string(e->v) + "+" + std::to_string(e->w) + "]";
  for (Expr *x : {e->a, e->b, e->c}) if (x) s += " " + str(x, d - 1);
  return s + ")";
}

Expr *ExprPool::subst(Expr *e, const std::vector<uint8_t> &fixed, const Model &m) {
  bool any = false;
  for (uint32_t v : vars(e)) if (v < fixed.size() && fixed[v]) { any = true; break; }
  if (!any) return e;
  ++sepoch;
  return substRec(e, fixed, m);
}
Expr *ExprPool::substRec(Expr *e, const std::vector<uint8_t> &fixed, const Model &m) {
  if (e->k == K::Const || e->k == K::Undef) return e;
  if (e->k == K::Var) return e->v < fixed.size() && fixed[e->v] ? konst(m[e->v], e->w) : e;
  if (e->substEpoch == sepoch) return e->substVal;
  bool any = false;
  for (uint32_t v : vars(e)) if (v < fixed.size() && fixed[v]) { any = true; break; }
  if (!any) return e;
  Expr *r;
  Expr *a = substRec(e->a, fixed, m);
  switch (e->k) {
  case K::Not: r = notE(a); break;
  case K::Ite:
    if (a->k == K::Const) r = substRec(a->v ? e->b : e->c, fixed, m);
    else r = ite(a, substRec(e->b, fixed, m), substRec(e->c, fixed, m));
    break;
  case K::Concat: r = concat(a, substRec(e->b, fixed, m)); break;
  case K::Extract: r = extract(a, (unsigned)e->v, e->w); break;
  case K::ZExt: r = zext(a, e->w); break;
  case K::SExt: r = sext(a, e->w); break;
  default: r = bin(e->k, a, substRec(e->b, fixed, m)); break;
  }
  e->substEpoch = sepoch; e->substVal = r;
  return r;
}
// mode 0: zeros, 1: ones, 2: one shared fresh variable per width
Expr *ExprPool::fillUndef(Expr *e, int mode) {
  if (!e->undef) return e;
  if (e->k == K::Undef) {
    if (mode < 2) return konst(mode ? ~0ull : 0, e->w);
    if (!undefVar[e->w]) undefVar[e->w] = var(e->w, "uninit");
    return undefVar[e->w];
  }
  if (auto it = undefMemo[mode].find(e); it != undefMemo[mode].end()) return it->second;
  Expr *r = nullptr;
  Expr *a = fillUndef(e->a, mode), *b = e->b ? fillUndef(e->b, mode) : nullptr, *c = e->c ? fillUndef(e->c, mode) : nullptr;
  switch (e->k) {
  case K::Not: r = notE(a); break;
  case K::Ite: r = ite(a, b, c); break;
  case K::Concat: r = concat(a, b); break;
  case K::Extract: r = extract(a, (unsigned)e->v, e->w); break;
  case K::ZExt: r = zext(a, e->w); break;
  case K::SExt: r = sext(a, e->w); break;
  default: r = bin(e->k, a, b); break;
  }
  undefMemo[mode][e] = r;
  return r;
}
