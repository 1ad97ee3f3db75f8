// N01-N04: the numeric functions, against exact arithmetic (N01), algebraic identities (N02), symmetries (N03) and the
// mathematical functions themselves (N04; here exp, log, ... are the engine's mathematical functions).
#include "sx.h"
#include <cmath>
#include "cest/cmath.hpp"
#ifndef EMAX
#define EMAX 6
#endif
#ifndef W
#define W 64
#endif
#ifndef LO
#define LO 0.0
#endif
#ifndef HI
#define HI 1.0
#endif
#include "bounds.h"
static const double Inf = __builtin_inf();
static inline bool both(bool a, bool b) { return (unsigned)a & (unsigned)b; }
static inline bool either(bool a, bool b) { return (unsigned)a | (unsigned)b; }
static double arg(double lo, double hi) { double x = symDouble("x"); assume(both(x >= lo, x <= hi)); return x; }
static inline double mag(double d) { return __builtin_fabs(d); }
// ---- N01
SX_HARNESS(n01_abs) {
  double x = symDouble("x"); double a = cest::abs(x), f = cest::fabs(x);
  if (x != x) { CHECKM(both(a != a, f != f), "abs of not-a-number is not a number"); DONE(); return; }
  CHECKM(bitsOf(a) == (bitsOf(x) & 0x7fffffffffffffffull), "abs is the non-negative number of the same magnitude");
  CHECKM(bitsOf(f) == (bitsOf(x) & 0x7fffffffffffffffull), "fabs is the non-negative number of the same magnitude");
  DONE();
}
SX_HARNESS(n01_floor) { double x = arg(-2147483648.0, 2147483647.99999988); assume(x < 2147483648.0); int r = cest::floor(x); CHECKM(both((double)r <= x, x < (double)r + 1.0), "floor is the greatest int not above the argument"); DONE(); }
SX_HARNESS(n01_ceil) { double x = arg(-2147483649.0, 2147483647.0); assume(x > -2147483649.0); int r = cest::ceil(x); CHECKM(both((double)r >= x, (double)r - 1.0 < x), "ceil is the least int not below the argument"); DONE(); }
// ---- N04
#define APPROX(name, fn, tol, msg) SX_HARNESS(name) { double x = arg(LO, HI); double r = cest::fn(x), t = std::fn(x); CHECKM(mag(r - t) <= tol, msg); DONE(); }
APPROX(n04_exp, exp, 0.001 * t, "exp is within 0.1% of e to the argument")
APPROX(n04_log, log, 0.0011 + 0.0001 * mag(t), "log is within 0.0011 (and 0.01%) of the natural logarithm")
APPROX(n04_sin, sin, 0.001, "sin is within 0.001 of the sine")
APPROX(n04_cos, cos, 0.001, "cos is within 0.001 of the cosine")
APPROX(n04_sinh, sinh, 0.001 * mag(t), "sinh is within 0.1% of the hyperbolic sine")
APPROX(n04_cosh, cosh, 0.0011 * t, "cosh is within 0.11% of the hyperbolic cosine")
APPROX(n04_atan, atan, 0.001 * mag(t), "atan is within 0.1% of the arc tangent")
// ---- N02
// pow on whole bases: exactly the product (every partial product is a whole number below 2^53)
SX_HARNESS(n02_pow_int) {
  int b = (int)sx_sym("b", 6); b = (b ^ 32) - 32; int n = (int)pick("n", EMAX + 1); double p = 1; long long q = 1;
  for (int i = 0; i < n; ++i) q *= b; p = (double)q;
  double r = cest::pow((double)b, n); CHECKM(r == p, "pow of a whole base is exactly the product");
  if (b != 0) { double i = cest::pow((double)b, -n); CHECKM(mag(i * p - 1.0) <= 1e-12, "pow with a negative exponent is the reciprocal"); }
  DONE();
}
// any base: the n-fold product up to rounding
SX_HARNESS(n02_pow) {
  bool neg = pick("sign", 2); double x = arg(LO, HI), b = neg ? -x : x; int n = (int)pick("n", EMAX + 1); double p = 1; for (int i = 0; i < n; ++i) p *= x;
  double r = cest::pow(b, n); if (neg) { if (n & 1) r = -r; }
  CHECKM(mag(r - p) <= 1e-6 * p, "pow is the n-fold product");
  double i = cest::pow(b, -n); if (neg) { if (n & 1) i = -i; } CHECKM(mag(i * p - 1.0) <= 1e-5, "pow with a negative exponent is the reciprocal of the n-fold product");
  DONE();
}
SX_HARNESS(n02_pow_any) { // every double
  double b = symDouble("b"); CHECKM(cest::pow(b, 0) == 1.0, "pow with exponent 0 is 1"); double p1 = cest::pow(b, 1); CHECKM(either(p1 == b, both(p1 != p1, b != b)), "pow with exponent 1 is the base");
  double p2 = cest::pow(b, 2), s = b * b; CHECKM(either(p2 == s, both(p2 != p2, s != s)), "pow with exponent 2 is the square"); DONE(); }
SX_HARNESS(n02_pow_two) { int n = (int)pick("n", 2 * W + 1) - W; double p = 1; for (int i = 0; i < n; ++i) p *= 2; for (int i = 0; i > n; --i) p /= 2; CHECKM(cest::pow(2.0, n) == p, "powers of two are exact"); DONE(); }
SX_HARNESS(n02_sqrt) { double x = arg(LO, HI), r = cest::sqrt(x); CHECKM(both(r > 0.0, mag(r * r - x) <= 0.0011 * x), "sqrt is positive and its square is the argument to about 0.1%"); DONE(); }
SX_HARNESS(n02_sqrt_special) {
  double x = symDouble("x"); assume(!both(x > 0.0, x < Inf)); double r = cest::sqrt(x);
  if (x < 0.0) CHECKM(r != r, "sqrt of a negative number is not a number"); else if (x == 0.0) CHECKM(r == 0.0, "sqrt of 0 is 0"); else if (x == Inf) CHECKM(r == Inf, "sqrt of infinity is infinity"); else CHECKM(r != r, "sqrt of not-a-number is not a number");
  DONE(); }
SX_HARNESS(n02_log_special) {
  double x = symDouble("x"); assume(!both(x > 0.0, x < Inf)); double r = cest::log(x);
  if (x < 0.0) CHECKM(r != r, "log of a negative number is not a number"); else if (x == 0.0) CHECKM(r == -Inf, "log of 0 is minus infinity"); else if (x == Inf) CHECKM(r == Inf, "log of infinity is infinity"); else CHECKM(r != r, "log of not-a-number is not a number");
  DONE(); }
SX_HARNESS(n02_exp) { double x = arg(LO, HI), a = cest::exp(x), b = cest::exp(-x); CHECKM(both(a > 0.0, b > 0.0), "exp is positive"); CHECKM(mag(a * b - 1.0) <= 0.001, "exp of the opposite argument is the reciprocal"); DONE(); }
SX_HARNESS(n02_exp0) { double x = symDouble("x"); assume(x == 0.0); CHECKM(cest::exp(x) == 1.0, "exp of 0 is 1"); double l = cest::log(1.0); CHECKM(mag(l) <= 0.0011, "log of 1 is about 0"); DONE(); }
SX_HARNESS(n02_log_exp) { double x = arg(LO, HI); double l = cest::log(cest::exp(x)); CHECKM(mag(l - x) <= 0.0013 + 0.0001 * mag(x), "log undoes exp"); DONE(); }
SX_HARNESS(n02_log_inv) { double x = arg(LO, HI); double s = cest::log(x) + cest::log(1.0 / x); CHECKM(mag(s) <= 0.0023, "log of the reciprocal is the opposite"); DONE(); }
// ---- N03
static const double Pi = 3.141592653589793;
SX_HARNESS(n03_atan) { double x = symDouble("x"); assume(x == x); double a = cest::atan(x), b = cest::atan(-x); CHECKM(a == -b, "atan is odd"); CHECKM(mag(a) <= Pi / 2 + 0.001, "atan stays within a quarter turn");
  if (x > 0.0) CHECKM(a > 0.0, "atan has the sign of its argument"); if (x < 0.0) CHECKM(a < 0.0, "atan has the sign of its argument"); if (x == 0.0) CHECKM(a == 0.0, "atan vanishes at 0"); DONE(); }
SX_HARNESS(n03_sinh) { double x = arg(LO, HI); double a = cest::sinh(x), b = cest::sinh(-x); CHECKM(a == -b, "sinh is odd"); if (x > 0.0) CHECKM(a > 0.0, "sinh has the sign of its argument"); if (x == 0.0) CHECKM(a == 0.0, "sinh vanishes at 0"); DONE(); }
SX_HARNESS(n03_cosh) { double x = arg(LO, HI); double a = cest::cosh(x), b = cest::cosh(-x); CHECKM(mag(a - b) <= 1e-9 * a, "cosh is even"); CHECKM(a >= 0.999, "cosh is at least 1"); double s = cest::sinh(x); CHECKM(mag(a * a - s * s - 1.0) <= 0.0025 * a * a, "cosh squared less sinh squared is 1"); DONE(); }
SX_HARNESS(n03_sin) { double x = arg(LO, HI); double a = cest::sin(x), b = cest::sin(-x), c = cest::cos(x); CHECKM(mag(a + b) <= 0.0015, "sin is odd"); CHECKM(both(mag(a) <= 1.001, mag(c) <= 1.001), "sin and cos stay within [-1,1]"); CHECKM(mag(a * a + c * c - 1.0) <= 0.003, "sin squared and cos squared add up to 1"); DONE(); }
SX_HARNESS(n03_cos) { double x = arg(LO, HI); CHECKM(mag(cest::cos(x) - cest::cos(-x)) <= 0.0015, "cos is even"); DONE(); }
SX_HARNESS(n03_zero) { double z = symDouble("z"); assume(z == 0.0); CHECKM(mag(cest::sin(z)) <= 1e-6, "sin vanishes at 0"); CHECKM(cest::atan(z) == 0.0, "atan vanishes at 0"); CHECKM(mag(cest::cos(z) - 1.0) <= 0.001, "cos is 1 at 0"); CHECKM(cest::sinh(z) == 0.0, "sinh vanishes at 0"); CHECKM(mag(cest::cosh(z) - 1.0) <= 0.001, "cosh is 1 at 0"); DONE(); }
SX_HARNESS(n03_atan2) { // any finite point off the axes
  double y = symDouble("y"), x = symDouble("x"); assume(both(both(x > -Inf, x < Inf), both(y > -Inf, y < Inf))); assume(x != 0.0); assume(y != 0.0);
  double r = cest::atan2(y, x), q = std::atan(y / x);
  if (x > 0.0) { CHECKM(mag(r - q) <= 0.001, "atan2 is the angle of the point (right half plane)"); if (y > 0.0) CHECKM(both(r >= 0.0, r <= Pi / 2 + 0.001), "first quadrant"); else CHECKM(both(r <= 0.0, r >= -Pi / 2 - 0.001), "fourth quadrant"); }
  else if (y > 0.0) { CHECKM(mag(r - (q + Pi)) <= 0.0011, "atan2 is the angle of the point (second quadrant)"); CHECKM(both(r >= Pi / 2 - 0.001, r <= Pi + 0.001), "second quadrant"); }
  else { CHECKM(mag(r - (q - Pi)) <= 0.0011, "atan2 is the angle of the point (third quadrant)"); CHECKM(both(r <= -Pi / 2 + 0.001, r >= -Pi - 0.001), "third quadrant"); }
  DONE(); }
SX_HARNESS(n03_axes) {
  double v = symDouble("v"); assume(both(v == v, v != 0.0)); assume(both(v > -Inf, v < Inf)); double z = symDouble("z"); assume(z == 0.0);
  double a = cest::atan2(v, z); CHECKM(mag(a - (v > 0.0 ? Pi / 2 : -Pi / 2)) <= 1e-12, "atan2 on the y axis");
  double b = cest::atan2(z, v); if (v > 0.0) CHECKM(b == 0.0, "atan2 on the positive x axis"); else { CHECKM(mag(mag(b) - Pi) <= 1e-12, "atan2 on the negative x axis"); CHECKM(mag(cest::atan2(0.0, v) - Pi) <= 1e-12, "atan2 is pi on the negative x axis"); }
  CHECKM(cest::atan2(z, z) == 0.0, "atan2 at the origin"); DONE(); }
