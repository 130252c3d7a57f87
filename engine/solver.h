#pragma once
#include "expr.h"
#include <memory>
enum SatRes { R_SAT, R_UNSAT, R_UNKNOWN };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, fpQueries = 0; double secs = 0, maxSecs = 0; };
extern SolverStats g_sst;
void solverInit(unsigned timeoutMs);
// Is (AND cs) satisfiable?  On SAT, fills model entries for the variables that occur.
SatRes solveSet(const std::vector<Expr *> &cs, std::vector<std::pair<uint32_t, uint8_t>> &model);
