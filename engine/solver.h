#pragma once
#include <string>
#include <vector>
#include "expr.h"
namespace sx {
enum Verdict { UNSAT, SAT, UNKNOWN };
struct SolveStats {
    double secs = 0;
    uint64_t vars = 0, clauses = 0;
    std::string by;
};
// Is the width-1 expression satisfiable?  Bit-blasts and races kissat against z3.
Verdict solve(E q, double timeout, std::vector<APInt> &model, SolveStats &st);
// The same question to z3 only, on the word-level formula (cross-check of the blaster).
Verdict solveZ3(E q, double timeout, std::vector<APInt> &model, SolveStats &st);
// Quick in-process feasibility of a conjunction (z3), UNKNOWN counts as feasible.
Verdict feasible(const std::vector<E> &conj, unsigned ms);
std::string toSmt2(E q);
extern uint64_t feasQueries;
extern double feasSecs;
}  // namespace sx
