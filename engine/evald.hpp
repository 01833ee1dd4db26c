#pragma once
#include "expr.hpp"
struct EvalDR { bool ok = false; uint64_t u = 0; double d = 0; };
struct EvalD {   // double-precision evaluation with the true transcendental functions
  std::unordered_map<uint32_t, uint64_t> bv; std::unordered_map<uint32_t, double> r;
  std::unordered_map<N, EvalDR> memo;
  const EvalDR &ev(N n);
};
