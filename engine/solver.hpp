#pragma once
#include "expr.hpp"
enum class Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, forked = 0; double time = 0, maxq = 0; };
extern SolverStats g_sstats;
extern double g_deadline;                        // absolute, seconds (monotonic)
double nowS();
// conj: conjunction to satisfy. On SAT fills *m (values for the variables involved).
Res solverCheck(const std::vector<N> &conj, Model *m, double timeoutS);
// keep only conjuncts connected to seed through shared variables
std::vector<N> slice(const std::vector<N> &pc, const std::vector<N> &seed);
std::string smtDump(const std::vector<N> &conj);
bool isNonlinear(N n);
