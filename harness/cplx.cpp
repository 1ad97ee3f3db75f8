// X02: the analytic functions of a complex number, against the mathematical functions of its parts (exp, log, sin, ... on the
// oracle side are the engine's mathematical functions) within the accuracy the library's real functions have.
#include "sx.h"
#include <cmath>
#include "cest/sstream.hpp"
#include "cest/iostream.hpp"
#include "cest/cmath.hpp"
#include "cest/complex.hpp"
#include "bounds.h"
using C = cest::complex<double>;
static const double Pi = 3.141592653589793;
static inline bool both(bool a, bool b) { return (unsigned)a & (unsigned)b; }
static inline double mag(double d) { return __builtin_fabs(d); }
static double argX() { double x = symDouble("x"); assume(both(x >= SX_XL, x <= SX_XH)); return x; }
static double argY() { double y = symDouble("y"); assume(both(y >= SX_YL, y <= SX_YH)); return y; }
// zero, or a number of either sign of magnitude in [lo,hi]
static double part(const char *n, double lo, double hi) { int k = (int)pick(n, 3); double v = symDouble(n); if (k == 0) assume(v == 0.0); else if (k == 1) assume(both(v >= lo, v <= hi)); else assume(both(v >= -hi, v <= -lo)); return v; }
#define POINT double x = part("x", SX_XL, SX_XH), y = part("y", SX_YL, SX_YH)
// a point of any magnitude in [XL,XH] on one of 16 rays (both axes, both diagonals, and slopes a half and two in each quadrant)
static const int RX[16] = {4, 4, 4, 2, 0, -2, -4, -4, -4, -4, -4, -2, 0, 2, 4, 4}, RY[16] = {0, 2, 4, 4, 4, 4, 4, 2, 0, -2, -4, -4, -4, -4, -4, -2};
static const double At = 0.46364760900080609; // the arc tangent of a half
static const double Ang[16] = {0, At, Pi / 4, Pi / 2 - At, Pi / 2, Pi / 2 + At, 3 * Pi / 4, Pi - At, Pi, At - Pi, -3 * Pi / 4, -Pi / 2 - At, -Pi / 2, At - Pi / 2, -Pi / 4, -At};
static double onRay(int c, double w) { double m = c == 4 || c == -4 ? w : c ? 0.5 * w : 0.0; return c < 0 ? -m : m; }
#define RAY int k = (int)pick("ray", 16); double w = symDouble("w"); assume(both(w >= SX_XL, w <= SX_XH)); double x = onRay(RX[k], w), y = onRay(RY[k], w)
#define NEAR(r, re, im, tol, msg) CHECKM(both(mag((r).real() - (re)) <= (tol), mag((r).imag() - (im)) <= (tol)), msg)
SX_HARNESS(x02_polar) { double r = argX(), t = argY(); C z = cest::polar(r, t); NEAR(z, r * std::cos(t), r * std::sin(t), 0.001 * r + 1e-9, "polar has the given magnitude and angle"); DONE(); }
SX_HARNESS(x02_exp) { double x = argX(), y = argY(); C z = cest::exp(C(x, y)); double e = std::exp(x); NEAR(z, e * std::cos(y), e * std::sin(y), 0.0021 * e, "exp has magnitude e to the real part and angle the imaginary part"); DONE(); }
SX_HARNESS(x02_abs) { RAY; double a = cest::abs(C(x, y)); const double s = (double)(RX[k] * RX[k] + RY[k] * RY[k]) * 0.0625 * (w * w); CHECKM(both(a >= 0.0, mag(a * a - s) <= 0.0021 * s + 1e-9), "abs is the non-negative root of the sum of squares"); DONE(); }
SX_HARNESS(x02_arg) { POINT; assume(x != 0.0); double r = cest::arg(C(x, y)), q = std::atan(y / x); if (x < 0.0) { if (y >= 0.0) q = q + Pi; else q = q - Pi; } if (both(x < 0.0, y == 0.0)) r = mag(r); CHECKM(mag(r - q) <= 0.0011, "arg is the angle of the point"); DONE(); }
SX_HARNESS(x02_log) { RAY; C z = cest::log(C(x, y)); double l = std::log(w) + 0.5 * std::log((RX[k] * RX[k] + RY[k] * RY[k]) * 0.0625), q = Ang[k];
  CHECKM(mag(z.real() - l) <= 0.0022 + 0.0001 * mag(l), "the real part of log is the logarithm of the magnitude"); CHECKM(mag(z.imag() - q) <= 0.0011, "the imaginary part of log is the angle"); DONE(); }
SX_HARNESS(x02_log10) { RAY; C z = cest::log10(C(x, y)); double l = std::log(w) + 0.5 * std::log((RX[k] * RX[k] + RY[k] * RY[k]) * 0.0625), q = Ang[k];
  const double t = 2.302585092994046; NEAR(z, l / t, q / t, 0.0015 + 0.001 * (mag(l) + mag(q)), "log10 is log divided by the logarithm of 10"); DONE(); }
SX_HARNESS(x02_sin) { double x = argX(), y = argY(); C z = cest::sin(C(x, y)); double c = std::cosh(y); NEAR(z, std::sin(x) * c, std::cos(x) * std::sinh(y), 0.0025 * c, "sin of a complex number"); DONE(); }
SX_HARNESS(x02_cos) { double x = argX(), y = argY(); C z = cest::cos(C(x, y)); double c = std::cosh(y); NEAR(z, std::cos(x) * c, -std::sin(x) * std::sinh(y), 0.0025 * c, "cos of a complex number"); DONE(); }
SX_HARNESS(x02_sinh) { double x = argX(), y = argY(); C z = cest::sinh(C(x, y)); double c = std::cosh(x); NEAR(z, std::sinh(x) * std::cos(y), c * std::sin(y), 0.0025 * c, "sinh of a complex number"); DONE(); }
SX_HARNESS(x02_cosh) { double x = argX(), y = argY(); C z = cest::cosh(C(x, y)); double c = std::cosh(x); NEAR(z, c * std::cos(y), std::sinh(x) * std::sin(y), 0.0025 * c, "cosh of a complex number"); DONE(); }
SX_HARNESS(x02_sqrt) { RAY; C z = cest::sqrt(C(x, y)); double u = z.real(), v = z.imag(), m = mag(x) + mag(y); CHECKM(u >= 0.0, "sqrt lies in the right half plane"); CHECKM(y < 0.0 ? v <= 0.0 : v >= 0.0, "sqrt lies on the side of its argument");
  CHECKM(both(mag(u * u - v * v - x) <= 0.005 * m + 1e-9, mag(2.0 * u * v - y) <= 0.005 * m + 1e-9), "the square of sqrt is the argument"); DONE(); }
SX_HARNESS(x02_sqrt_axes) { double x = part("x", SX_XL, SX_XH); const double s = 0.0;
  C a = cest::sqrt(C(x, s)); double m = mag(x); if (x >= 0.0) CHECKM(both(both(a.real() >= 0.0, mag(a.real() * a.real() - x) <= 0.003 * m), a.imag() == 0.0), "sqrt of a non-negative real is real"); else CHECKM(both(both(a.imag() >= 0.0, mag(a.imag() * a.imag() - m) <= 0.003 * m), a.real() == 0.0), "sqrt of a negative real is imaginary");
  C b = cest::sqrt(C(s, x)); CHECKM(both(b.real() >= 0.0, x < 0.0 ? b.imag() <= 0.0 : b.imag() >= 0.0), "sqrt of an imaginary number lies in the right half plane"); CHECKM(both(mag(2.0 * b.real() * b.imag() - x) <= 0.003 * m, mag(b.real() * b.real() - b.imag() * b.imag()) <= 1e-9 * m), "the square of sqrt is the imaginary argument");
  DONE(); }
SX_HARNESS(x02_tan) { double x = argX(), y = argY(); C z = cest::tan(C(x, y)); double d = std::cos(2.0 * x) + std::cosh(2.0 * y); CHECKM(both(mag(z.real() * d - std::sin(2.0 * x)) <= 0.008 * (d + 1.0), mag(z.imag() * d - std::sinh(2.0 * y)) <= 0.008 * (d + 1.0)), "tan of a complex number"); DONE(); }
SX_HARNESS(x02_tanh) { double x = argX(), y = argY(); C z = cest::tanh(C(x, y)); double d = std::cosh(2.0 * x) + std::cos(2.0 * y); CHECKM(both(mag(z.real() * d - std::sinh(2.0 * x)) <= 0.008 * (d + 1.0), mag(z.imag() * d - std::sin(2.0 * y)) <= 0.008 * (d + 1.0)), "tanh of a complex number"); DONE(); }
// powers: a positive real to a complex power; a complex number on a ray to a real, a complex and an int power
static const double Ex[6] = {-1.5, -1.0, 0.5, 1.0, 2.0, 2.5}, Im[4] = {-1.0, 0.25, 1.0, 0.0};
SX_HARNESS(x02_pow_rc) { double b = argX(); double s = Ex[pick("s", 6)], t = Im[pick("t", 4)]; C z = cest::pow(b, C(s, t)); double l = std::log(b), e = std::exp(s * l); NEAR(z, e * std::cos(t * l), e * std::sin(t * l), 0.006 * e, "a positive real to a complex power"); DONE(); }
SX_HARNESS(x02_pow_cr) { RAY; double s = Ex[pick("s", 6)]; C z = cest::pow(C(x, y), s); double l = std::log(w) + 0.5 * std::log((RX[k] * RX[k] + RY[k] * RY[k]) * 0.0625), e = std::exp(s * l), a = s * Ang[k]; NEAR(z, e * std::cos(a), e * std::sin(a), 0.012 * e, "a complex number to a real power"); DONE(); }
SX_HARNESS(x02_pow_cc) { RAY; double s = Ex[pick("s", 6)], t = Im[pick("t", 4)]; C z = cest::pow(C(x, y), C(s, t)); double l = std::log(w) + 0.5 * std::log((RX[k] * RX[k] + RY[k] * RY[k]) * 0.0625), e = std::exp(s * l - t * Ang[k]), a = s * Ang[k] + t * l; NEAR(z, e * std::cos(a), e * std::sin(a), 0.015 * e, "a complex number to a complex power"); DONE(); }
SX_HARNESS(x02_pow_zero) { double s = argX(), t = argY(); C z = cest::pow(C(0.0, 0.0), C(s, t)); CHECKM(both(z.real() == 0.0, z.imag() == 0.0), "a power of zero is zero"); DONE(); }
