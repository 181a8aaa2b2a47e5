#pragma once
#include "expr.hpp"
#include <string>
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries, z3calls, cacheHits, modelHits, unknowns, bbcalls, abstracted; double z3time, maxq; };
extern SolverStats g_sst;
extern unsigned g_timeoutMs;     // hard per-query limit
extern std::string g_dumpDir;    // if set: dump a sample of queries as SMT-LIB2
// Decide pc /\ extra.  'model' must satisfy pc on entry; on SAT it satisfies pc /\ extra on exit.
Res solverCheck(const std::vector<Node *> &pc, Val extra, std::vector<uint64_t> &model);
void solverInit();
std::string smt2Of(const std::vector<Node *> &cs);
