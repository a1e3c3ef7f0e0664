// Doubles as exact integer multiples of 1/64, with codes for everything else.
#pragma once
#include <cmath>
#include <cfloat>
namespace sc {
static const double S = 64.;
static const long long NANC = 2000000001, PINF = 2000000002, NINF = 2000000003, DMAX = 2000000004, BAD = 2000000009, BIG = 2000000005, NBIG = 2000000006;
inline long long enc(double d) {
  if(d != d) return NANC;
  if(d == INFINITY) return PINF;
  if(d == -INFINITY) return NINF;
  if(d == DBL_MAX) return DMAX;
  if(d == 1e20) return BIG;
  if(d == -1e20) return NBIG;
  double v = d * S, r = std::round(v);
  if(std::fabs(v) > 1e9) return BAD;
  return std::fabs(v - r) <= 1e-100 ? (long long)r : BAD;
}
// a value known only up to rounding (square of a norm)
inline double sq(double d) { double v = d * d * S, r = std::round(v); return std::fabs(v - r) <= 1e-12 * (1 + std::fabs(v)) ? r / S : NAN; }
inline long long log2i(double d) { double v = d / std::log(2.), r = std::round(v); return std::fabs(v - r) <= 1e-11 * (1 + std::fabs(v)) ? (long long)r : BAD; }
}
