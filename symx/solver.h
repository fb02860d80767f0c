// symx: solver front end (z3 in process, SMT-LIB2 portfolio for floating point)
#pragma once
#include "expr.h"
#include <memory>
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, fpQueries = 0, portfolio = 0, tableQueries = 0, crossChecked = 0, relaxed = 0;
  double time = 0, fpTime = 0, maxTime = 0;
};
extern SolverStats SS;
extern int optTimeoutMs;        // per bit-vector query
extern int optFpTimeoutMs;      // per floating-point query
// is /\pc /\ extra satisfiable?  On sat, `out` (if given) is `base` updated for the slice.
Res solve(const std::vector<E> &pc, E extra, const Model *base, Model *out);
void solverResetAfterFork();
