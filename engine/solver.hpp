// symx: satisfiability of conjunctions of 1-bit expressions, decided by Z3 with independence slicing and caches.
#pragma once
#include "expr.hpp"
#include <memory>
#include <vector>
enum SatRes { S_UNSAT, S_SAT, S_UNKNOWN };
struct SolverStats { u64 queries = 0, z3calls = 0, cacheHits = 0, unsat = 0, sat = 0, unknown = 0, fpEsc = 0, guessed = 0, domain = 0; double z3secs = 0; };
extern SolverStats g_sst;
extern unsigned g_queryTimeoutMs;
// Is path /\ cond satisfiable?  base: a model of the path; on S_SAT, out is a model of path /\ cond.
SatRes checkSat(const std::vector<Expr*>& path, Expr* cond, const Model& base, Model& out);
