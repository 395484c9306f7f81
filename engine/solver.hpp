#pragma once
#include "expr.hpp"
namespace sx {
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { u64 queries = 0, unsat = 0, sat = 0, unknown = 0; double time = 0; u64 identical = 0; };
extern SolverStats zstat;
// is there an assignment with cond (conjunction) true and some pair different?  exact: expand small polynomials
Res checkDiffer(const std::vector<std::pair<Ref, Ref>> &pairs, const std::vector<Ref> &conds, bool exact, unsigned timeoutMs, Assign *model);
Res checkSat(const std::vector<Ref> &conds, bool exact, unsigned timeoutMs, Assign *model);
// merges bit nodes proved equal bottom-up; returns true when every pair is proved equal
bool sweepEqual(const std::vector<std::pair<Ref, Ref>> &pairs, const std::vector<Ref> &conds, double budget, u64 &sats);
}
