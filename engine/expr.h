// Hash-consed bit-vector expressions (width 1..64) with construction-time simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <cassert>

enum class K : uint8_t {
  Const, Var, Undef,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Not,
  Ite, Concat, Extract, ZExt, SExt
};

struct Expr {
  K k;
  uint8_t w;
  bool undef;          // contains an uninitialised value
  uint32_t id;
  uint64_t v;          // Const: value, Var: index, Extract: low bit
  Expr *a, *b, *c;
  const std::vector<uint32_t> *vars = nullptr; // sorted variable indices (lazily computed)
  uint32_t evalEpoch = 0;
  uint64_t evalVal = 0;
  void *ast = nullptr; // Z3_ast
  uint32_t substEpoch = 0;
  Expr *substVal = nullptr;
};

using Model = std::vector<uint64_t>;

static inline uint64_t maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextW(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskW(w); return (int64_t)((v ^ m) - m); }

// concrete evaluation of a binary operator; division by zero yields SMT-LIB results
uint64_t evalBin(K k, uint64_t a, uint64_t b, unsigned w);

class ExprPool {
public:
  ExprPool();
  Expr *konst(uint64_t v, unsigned w);
  Expr *var(unsigned w, const std::string &name); // fresh variable
  Expr *undef(unsigned w);
  Expr *bin(K k, Expr *a, Expr *b);
  Expr *notE(Expr *a);                   // 1-bit negation
  Expr *ite(Expr *c, Expr *t, Expr *f);
  Expr *concat(Expr *hi, Expr *lo);
  Expr *extract(Expr *e, unsigned lo, unsigned w);
  Expr *zext(Expr *e, unsigned w);
  Expr *sext(Expr *e, unsigned w);
  Expr *eq(Expr *a, Expr *b) { return bin(K::Eq, a, b); }
  Expr *bitNot(Expr *a) { return bin(K::Xor, a, konst(maskW(a->w), a->w)); }

  const std::vector<uint32_t> &vars(Expr *e);
  uint64_t eval(Expr *e, const Model &m);
  void newEval() { ++epoch; }
  uint64_t evalRec(Expr *e, const Model &m);

  Expr *subst(Expr *e, const std::vector<uint8_t> &fixed, const Model &m);
  Expr *fillUndef(Expr *e, int mode);
  unsigned numVars() const { return (unsigned)varW.size(); }
  unsigned varWidth(unsigned i) const { return varW[i]; }
  const std::string &varName(unsigned i) const { return varN[i]; }
  Expr *varExpr(unsigned i) const { return varE[i]; }
  size_t size() const { return count; }
  std::string str(Expr *e, int depth = 6);
  unsigned tz(Expr *e, int depth = 8);   // known trailing zero bits
  uint64_t umax(Expr *e, int depth = 8); // upper bound

private:
  Expr *substRec(Expr *e, const std::vector<uint8_t> &fixed, const Model &m);
  uint32_t sepoch = 0;
  Expr *undefVar[65] = {};
  std::unordered_map<Expr *, Expr *> undefMemo[3];
  Expr *mk(K k, unsigned w, uint64_t v, Expr *a, Expr *b, Expr *c);
  Expr *binS(K k, Expr *a, Expr *b);
  struct Key { K k; uint8_t w; uint64_t v; Expr *a, *b, *c; bool operator==(const Key &o) const { return k == o.k && w == o.w && v == o.v && a == o.a && b == o.b && c == o.c; } };
  struct KeyH { size_t operator()(const Key &x) const { size_t h = (size_t)x.k * 0x9E3779B97F4A7C15ull + x.w; auto mix = [&](uint64_t q) { h ^= q + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }; mix(x.v); mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.c); return h; } };
  std::unordered_map<Key, Expr *, KeyH> table;
  std::vector<unsigned> varW; std::vector<std::string> varN; std::vector<Expr *> varE;
  std::vector<Expr *> slab; size_t slabPos = 0; static const size_t slabN = 4096;
  uint32_t nextId = 0; uint32_t epoch = 1; size_t count = 0;
  std::vector<std::vector<uint32_t> *> varSets;
};
extern ExprPool EP;
