// symx: floating-point constraints decided over the reals
#pragma once
#include "solver.h"
// R_UNSAT is definitive; R_SAT comes with a checked model; R_UNKNOWN otherwise
Res relaxFp(const std::vector<E> &slice, const std::vector<int> &vars, Model *out, int ms, bool &proved);
