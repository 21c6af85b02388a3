#pragma once
#include "expr.h"
enum class Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t poolHits = 0; uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, heavy = 0, absProved = 0, liaProved = 0, cvc5Proved = 0; double time = 0; };
extern SolverStats sstats;
extern int heavyTimeoutMs;
// Is the conjunction satisfiable? On SAT, fills model (only symbols/UFs that occur in cs are overwritten).
Res solve(const std::vector<E> &cs, Model *m, bool heavy = true);
// constraints of cs relevant to the symbols of conds (transitively)
std::vector<E> slice(const std::vector<E> &cs, const std::vector<E> &conds);
const char *solverVersion();
std::string toSmt2(const std::vector<E> &cs);
