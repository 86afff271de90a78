// Z3-backed satisfiability of conjunctions of 1-bit expressions, with independence slicing and caching.
#pragma once
#include "expr.h"

struct SolverStats {
  uint64_t queries = 0, solverCalls = 0, sat = 0, unsat = 0, cacheHits = 0, unknown = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats SS;

enum class Sat { Yes, No, Unknown };
// Is constraints /\ cond satisfiable? `model` satisfies constraints on entry; on Yes, `out` is a model of both.
Sat satisfiable(const std::vector<Expr *> &constraints, Expr *cond, const Model &model, Model &out);
