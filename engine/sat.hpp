// Bit-blasting decision procedure for the integer/bit-vector fragment: Tseitin circuits + CDCL.
// Decides the bulk of the (small) queries; anything over its conflict budget, and all floating point, goes to z3.
#pragma once
#include <unordered_map>
#include "expr.hpp"
#include <vector>
// 1 sat (model filled for the variables that occur), 0 unsat, -1 not decided
int satDecide(const std::vector<Node *> &cs, std::vector<uint64_t> &model, unsigned long maxConflicts);
bool satRefuteAbstract(const std::vector<Node *> &cs, const std::unordered_map<Node *, char> &cut, unsigned long maxConflicts);
