#pragma once
#include "expr.hpp"
#include <string>
enum SatRes { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, external=0, order=0, icp=0, boxes=0; double time=0; };
extern SolverStats SS;
// decide satisfiability of the conjunction; on SAT fills the symbols occurring in cs into m (others untouched)
SatRes solve(const std::vector<const Expr*>&cs, Model&m, bool important=false);
// interval branch and prune; UNKNOWN when the budget of boxes is used up
SatRes icpSolve(const std::vector<const Expr*>&cs, Model&m, uint64_t budget);
void solverResetAfterFork();
extern std::string solverTmpDir;
extern int extTimeout;      // seconds for the external portfolio on hard (important) queries
extern unsigned inprocRlimit;
extern const volatile double*solverStop;   // steady-clock second at which running queries give up
double solverNow();
extern bool solverBrief;    // while states are still being handed out: undecided branches are settled later, by the workers
