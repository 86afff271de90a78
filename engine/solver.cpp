#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
SolverStats SS;

namespace {
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Z {
  Z3_context c = nullptr;
  Z3_solver s = nullptr;
  std::unordered_map<Expr *, Z3_ast> asts;
  std::unordered_map<Expr *, Z3_ast> lits;
  std::vector<Z3_ast> vars;
  unsigned uses = 0;

  void reset() {
    if (c) { Z3_solver_dec_ref(c, s); Z3_del_context(c); }
    Z3_config cfg = Z3_mk_config();
    c = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(c, [](Z3_context cc, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(cc, e)); abort(); });
    s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_FD"));
    Z3_solver_inc_ref(c, s);
    asts.clear(); lits.clear(); vars.clear(); uses = 0;
  }
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(c, w); }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  Z3_ast toBv(Expr *e) { // as a bit-vector even for width 1
    Z3_ast a = tr(e);
    if (e->w != 1) return a;
    return keep(Z3_mk_ite(c, a, keep(Z3_mk_unsigned_int64(c, 1, bv(1))), keep(Z3_mk_unsigned_int64(c, 0, bv(1)))));
  }
  Z3_ast var(unsigned i) {
    if (i >= vars.size()) vars.resize(i + 1, nullptr);
    if (!vars[i]) {
      char n[32]; snprintf(n, sizeof n, "v%u", i);
      unsigned w = EP.varWidth(i);
      vars[i] = keep(Z3_mk_const(c, Z3_mk_string_symbol(c, n), w == 1 ? Z3_mk_bool_sort(c) : bv(w)));
    }
    return vars[i];
  }
  Z3_ast tr(Expr *e) {
    auto it = asts.find(e);
    if (it != asts.end()) return it->second;
    Z3_ast r = nullptr;
    bool b1 = e->w == 1;
    switch (e->k) {
    case K::Const: r = b1 ? (e->v ? Z3_mk_true(c) : Z3_mk_false(c)) : Z3_mk_unsigned_int64(c, e->v, bv(e->w)); break;
    case K::Undef: r = b1 ? Z3_mk_false(c) : Z3_mk_unsigned_int64(c, 0, bv(e->w)); break;
    case K::Var: r = var((unsigned)e->v); break;
    case K::Not: r = Z3_mk_not(c, tr(e->a)); break;
    case K::Ite: { Z3_ast x = tr(e->a), y = tr(e->b), z = tr(e->c); r = Z3_mk_ite(c, x, y, z); break; }
    case K::Concat: { Z3_ast x = toBv(e->a), y = toBv(e->b); r = Z3_mk_concat(c, x, y); break; }
    case K::Extract: {
      Z3_ast x = Z3_mk_extract(c, (unsigned)e->v + e->w - 1, (unsigned)e->v, tr(e->a));
      if (b1) r = Z3_mk_eq(c, keep(x), keep(Z3_mk_unsigned_int64(c, 1, bv(1))));
      else r = x;
      break;
    }
    case K::ZExt: { Z3_ast x = toBv(e->a); r = Z3_mk_zero_ext(c, e->w - e->a->w, x); break; }
    case K::SExt: { Z3_ast x = toBv(e->a); r = Z3_mk_sign_ext(c, e->w - e->a->w, x); break; }
    default: {
      if (e->a->w == 1 && (e->k == K::And || e->k == K::Or || e->k == K::Xor || e->k == K::Eq)) {
        Z3_ast x = tr(e->a), y = tr(e->b); Z3_ast ar[2] = {x, y};
        r = e->k == K::And ? Z3_mk_and(c, 2, ar) : e->k == K::Or ? Z3_mk_or(c, 2, ar) : e->k == K::Xor ? Z3_mk_xor(c, x, y) : Z3_mk_iff(c, x, y);
        break;
      }
      Z3_ast x = toBv(e->a), y = toBv(e->b);
      switch (e->k) {
      case K::Add: r = Z3_mk_bvadd(c, x, y); break;
      case K::Sub: r = Z3_mk_bvsub(c, x, y); break;
      case K::Mul: r = Z3_mk_bvmul(c, x, y); break;
      case K::UDiv: r = Z3_mk_bvudiv(c, x, y); break;
      case K::SDiv: r = Z3_mk_bvsdiv(c, x, y); break;
      case K::URem: r = Z3_mk_bvurem(c, x, y); break;
      case K::SRem: r = Z3_mk_bvsrem(c, x, y); break;
      case K::And: r = Z3_mk_bvand(c, x, y); break;
      case K::Or: r = Z3_mk_bvor(c, x, y); break;
      case K::Xor: r = Z3_mk_bvxor(c, x, y); break;
      case K::Shl: r = Z3_mk_bvshl(c, x, y); break;
      case K::LShr: r = Z3_mk_bvlshr(c, x, y); break;
      case K::AShr: r = Z3_mk_bvashr(c, x, y); break;
      case K::Eq: r = Z3_mk_eq(c, x, y); break;
      case K::Ult: r = Z3_mk_bvult(c, x, y); break;
      case K::Ule: r = Z3_mk_bvule(c, x, y); break;
      case K::Slt: r = Z3_mk_bvslt(c, x, y); break;
      case K::Sle: r = Z3_mk_bvsle(c, x, y); break;
      default: abort();
      }
      if (b1 && e->a->w == 1 && e->k != K::Eq && e->k != K::Ult && e->k != K::Ule && e->k != K::Slt && e->k != K::Sle)
        r = Z3_mk_eq(c, keep(r), keep(Z3_mk_unsigned_int64(c, 1, bv(1))));
    }
    }
    keep(r);
    asts.emplace(e, r);
    return r;
  }
  Z3_ast lit(Expr *e) {
    auto it = lits.find(e);
    if (it != lits.end()) return it->second;
    char n[32]; snprintf(n, sizeof n, "p%u", e->id);
    Z3_ast p = keep(Z3_mk_const(c, Z3_mk_string_symbol(c, n), Z3_mk_bool_sort(c)));
    Z3_ast t = tr(e);
    Z3_ast imp = keep(Z3_mk_implies(c, p, t));
    Z3_solver_assert(c, s, imp);
    lits.emplace(e, p);
    return p;
  }
};
Z z;

struct CacheKey { uint64_t a, b; bool operator==(const CacheKey &o) const { return a == o.a && b == o.b; } };
struct CacheKeyH { size_t operator()(const CacheKey &k) const { return k.a; } };
struct CacheVal { bool sat; std::vector<std::pair<uint32_t, uint64_t>> m; };
std::unordered_map<CacheKey, CacheVal, CacheKeyH> cache;

Sat readModel(Z3_model m, const std::vector<uint32_t> &vs, std::vector<std::pair<uint32_t, uint64_t>> &out) {
  for (uint32_t v : vs) {
    uint64_t val = 0;
    Z3_ast r = nullptr;
    if (Z3_model_eval(z.c, m, z.var(v), true, &r) && r) {
      Z3_inc_ref(z.c, r);
      if (EP.varWidth(v) == 1) val = Z3_get_bool_value(z.c, r) == Z3_L_TRUE;
      else if (!Z3_get_numeral_uint64(z.c, r, &val)) val = 0;
      Z3_dec_ref(z.c, r);
    }
    out.push_back({v, val});
  }
  return Sat::Yes;
}
} // namespace

Sat satisfiable(const std::vector<Expr *> &cs, Expr *cond, const Model &model, Model &out) {
  ++SS.queries;
  if (cond->k == K::Const) { if (cond->v) out = model; return cond->v ? Sat::Yes : Sat::No; }
  if (EP.eval(cond, model)) { out = model; return Sat::Yes; }
  // independence slice
  static std::vector<uint8_t> inVar; static std::vector<uint32_t> sliceVars; static std::vector<uint8_t> used;
  inVar.assign(EP.numVars(), 0); sliceVars.clear(); used.assign(cs.size(), 0);
  for (uint32_t v : EP.vars(cond)) { inVar[v] = 1; sliceVars.push_back(v); }
  std::vector<Expr *> slice;
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < cs.size(); ++i) {
      if (used[i]) continue;
      const auto &vs = EP.vars(cs[i]);
      bool hit = false;
      for (uint32_t v : vs) if (inVar[v]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; slice.push_back(cs[i]); 
      for (uint32_t v : vs) if (!inVar[v]) { inVar[v] = 1; sliceVars.push_back(v); ch = true; }
    }
  }
  std::sort(slice.begin(), slice.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
  slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
  CacheKey key{cond->id * 0x9E3779B97F4A7C15ull + 1, cond->id * 0xc2b2ae3d27d4eb4full + 7};
  for (Expr *e : slice) {
    key.a ^= e->id + 0x9E3779B97F4A7C15ull + (key.a << 6) + (key.a >> 2); key.a *= 0xff51afd7ed558ccdull;
    key.b ^= e->id + 0x165667b19e3779f9ull + (key.b << 7) + (key.b >> 3); key.b *= 0xc4ceb9fe1a85ec53ull;
  }
  auto it = cache.find(key);
  if (it != cache.end()) {
    ++SS.cacheHits;
    if (!it->second.sat) return Sat::No;
    out = model;
    if (out.size() < EP.numVars()) out.resize(EP.numVars(), 0);
    for (auto &p : it->second.m) out[p.first] = p.second;
    return Sat::Yes;
  }
  if (!z.c || ++z.uses > 20000 || z.asts.size() > 300000) z.reset();
  double t0 = now();
  ++SS.solverCalls;
  // a fresh solver per query (the term cache is kept): clauses of unrelated paths never slow a query down
  Z3_solver sv = Z3_mk_solver_for_logic(z.c, Z3_mk_string_symbol(z.c, "QF_FD"));
  Z3_solver_inc_ref(z.c, sv);
  for (Expr *e : slice) Z3_solver_assert(z.c, sv, z.tr(e));
  Z3_solver_assert(z.c, sv, z.tr(cond));
  Z3_lbool r = Z3_solver_check(z.c, sv);
  CacheVal cv;
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(z.c, sv);
    Z3_model_inc_ref(z.c, m);
    readModel(m, sliceVars, cv.m);
    Z3_model_dec_ref(z.c, m);
  }
  Z3_solver_dec_ref(z.c, sv);
  double dt = now() - t0;
  SS.time += dt; if (dt > SS.maxTime) SS.maxTime = dt;
  if (r == Z3_L_UNDEF) { ++SS.unknown; return Sat::Unknown; }
  if (r == Z3_L_FALSE) { ++SS.unsat; cv.sat = false; cache.emplace(key, cv); return Sat::No; }
  ++SS.sat; cv.sat = true;
  out = model;
  if (out.size() < EP.numVars()) out.resize(EP.numVars(), 0);
  for (auto &p : cv.m) out[p.first] = p.second;
  // the answer must hold up under our own evaluation
  EP.newEval();
  bool ok = EP.evalRec(cond, out);
  for (Expr *e : slice) ok = ok && EP.evalRec(e, out);
  if (!ok) { fprintf(stderr, "engine: solver model does not satisfy the query\n"); ++SS.unknown; return Sat::Unknown; }
  cache.emplace(key, cv);
  return Sat::Yes;
}
