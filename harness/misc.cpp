// C01: character classification. W01: n-ary swap. X01: complex arithmetic.
#include "sx.h"
#include "cest/cctype.hpp"
#include "cest/swap.hpp"
#include <cmath>
#include "cest/iostream.hpp"
#include "cest/cmath.hpp"
#include "cest/complex.hpp" // needs the above before it
#include "cest/string.hpp"
#include "bounds.h"
#ifndef K
#define K 3
#endif
static inline bool both(bool a, bool b) { return (unsigned)a & (unsigned)b; }
static inline bool either(bool a, bool b) { return (unsigned)a | (unsigned)b; }
// ---- C01
static bool refUpper(int c) { return both(c >= 'A', c <= 'Z'); }
static bool refAlnum(int c) { return either(either(both(c >= '0', c <= '9'), both(c >= 'a', c <= 'z')), refUpper(c)); }
SX_HARNESS(c01_alnum) { int c = symInt("ch"); CHECKM((cest::isalnum(c) != 0) == refAlnum(c), "isalnum is non-zero exactly for the ASCII letters and digits"); DONE(); }
SX_HARNESS(c01_upper) { int c = symInt("ch"); CHECKM((cest::isupper(c) != 0) == refUpper(c), "isupper is non-zero exactly for the ASCII capitals"); DONE(); }
// as called with characters: plain char (promoted with sign) and unsigned char
SX_HARNESS(c01_chars) { char c = symChar("c"); CHECK((cest::isalnum(c) != 0) == refAlnum(c)); CHECK((cest::isupper(c) != 0) == refUpper(c)); unsigned char u = (unsigned char)symChar("u"); CHECK((cest::isalnum(u) != 0) == refAlnum(u)); CHECK((cest::isupper(u) != 0) == refUpper(u)); DONE(); }
// ---- W01
template <class T> struct MkT { static T mk(int x) { return T(x); } static bool eq(const T &a, int x) { return val(a) == x; } };
template <> struct MkT<cest::string> { static cest::string mk(int x) { cest::string s; s.push_back((char)x); s.push_back((char)(x >> 8)); return s; } static bool eq(const cest::string &a, int x) { return a.size() == 2 && both(a[0] == (char)x, a[1] == (char)(x >> 8)); } };
template <class T> static void w01() {
  int v[7]; for (int i = 0; i < 7; ++i) { v[i] = symInt("v"); }
  using M = MkT<T>; T a = M::mk(v[0]), b = M::mk(v[1]), c = M::mk(v[2]), d = M::mk(v[3]), e = M::mk(v[4]), f = M::mk(v[5]), g = M::mk(v[6]);
  T *p[7] = {&a, &b, &c, &d, &e, &f, &g}; int n = (int)pick("n", 8); bool r = pick("reverse", 2);
  if (!r) switch (n) { case 0: nary::swap(); break; case 1: nary::swap(a); break; case 2: nary::swap(a, b); break; case 3: nary::swap(a, b, c); break; case 4: nary::swap(a, b, c, d); break; case 5: nary::swap(a, b, c, d, e); break; case 6: nary::swap(a, b, c, d, e, f); break; case 7: nary::swap(a, b, c, d, e, f, g); break; }
  else switch (n) { case 0: nary::swapr(); break; case 1: nary::swapr(a); break; case 2: nary::swapr(a, b); break; case 3: nary::swapr(a, b, c); break; case 4: nary::swapr(a, b, c, d); break; case 5: nary::swapr(a, b, c, d, e); break; case 6: nary::swapr(a, b, c, d, e, f); break; case 7: nary::swapr(a, b, c, d, e, f, g); break; }
  for (int i = 0; i < n; ++i) CHECKM(M::eq(*p[i], v[r ? (i + n - 1) % n : (i + 1) % n]), "the arguments are rotated by one place");
  for (int i = n; i < 7; ++i) CHECKM(M::eq(*p[i], v[i]), "nothing else changes");
  // the other direction undoes it
  if (r) switch (n) { case 0: nary::swap(); break; case 1: nary::swap(a); break; case 2: nary::swap(a, b); break; case 3: nary::swap(a, b, c); break; case 4: nary::swap(a, b, c, d); break; case 5: nary::swap(a, b, c, d, e); break; case 6: nary::swap(a, b, c, d, e, f); break; case 7: nary::swap(a, b, c, d, e, f, g); break; }
  else switch (n) { case 0: nary::swapr(); break; case 1: nary::swapr(a); break; case 2: nary::swapr(a, b); break; case 3: nary::swapr(a, b, c); break; case 4: nary::swapr(a, b, c, d); break; case 5: nary::swapr(a, b, c, d, e); break; case 6: nary::swapr(a, b, c, d, e, f); break; case 7: nary::swapr(a, b, c, d, e, f, g); break; }
  for (int i = 0; i < 7; ++i) CHECKM(M::eq(*p[i], v[i]), "swapr undoes swap and swap undoes swapr");
  DONE();
}
SX_HARNESS(w01_int) { w01<int>(); }
SX_HARNESS(w01_tracked) { w01<Tracked>(); CHECK(gLive == 0); }
SX_HARNESS(w01_string) { w01<cest::string>(); }
// many arguments
template <class T, int... I> static void rot(T *x, bool r, std::integer_sequence<int, I...>) { if (r) nary::swapr(x[I]...); else nary::swap(x[I]...); }
template <class T, int N> static void w01many(bool r) {
  using M = MkT<T>; int v[N]; T x[N]; for (int i = 0; i < N; ++i) { v[i] = symInt("v"); x[i] = M::mk(v[i]); } rot(x, r, std::make_integer_sequence<int, N>());
  for (int i = 0; i < N; ++i) CHECKM(M::eq(x[i], v[r ? (i + N - 1) % N : (i + 1) % N]), "the arguments are rotated by one place"); rot(x, !r, std::make_integer_sequence<int, N>()); for (int i = 0; i < N; ++i) CHECKM(M::eq(x[i], v[i]), "swapr undoes swap and swap undoes swapr"); DONE();
}
template <class T> static void w01n() { bool r = split("reverse", 2); switch (split("n", 8)) { case 0: w01many<T, 8>(r); break; case 1: w01many<T, 9>(r); break; case 2: w01many<T, 10>(r); break; case 3: w01many<T, 11>(r); break; case 4: w01many<T, 12>(r); break; case 5: w01many<T, 16>(r); break; case 6: w01many<T, 17>(r); break; case 7: w01many<T, 33>(r); break; } }
SX_HARNESS(w01_many) { if (split("type", 2)) w01n<Tracked>(); else w01n<int>(); CHECK(gLive == 0); }
// repeated references: every argument is one of four variables
template <class T> static void w01rep() {
  int v[4]; for (int i = 0; i < 4; ++i) v[i] = symInt("v"); T x[4] = {T(v[0]), T(v[1]), T(v[2]), T(v[3])};
  int n = 2 + (int)pick("n", 4); T *p[5]; int ix[5]; for (int i = 0; i < n; ++i) { ix[i] = (int)pick("which", 4); p[i] = &x[ix[i]]; }
  bool r = pick("reverse", 2);
  auto fwd = [&] { switch (n) { case 2: nary::swap(*p[0], *p[1]); break; case 3: nary::swap(*p[0], *p[1], *p[2]); break; case 4: nary::swap(*p[0], *p[1], *p[2], *p[3]); break; case 5: nary::swap(*p[0], *p[1], *p[2], *p[3], *p[4]); break; } };
  auto bwd = [&] { switch (n) { case 2: nary::swapr(*p[0], *p[1]); break; case 3: nary::swapr(*p[0], *p[1], *p[2]); break; case 4: nary::swapr(*p[0], *p[1], *p[2], *p[3]); break; case 5: nary::swapr(*p[0], *p[1], *p[2], *p[3], *p[4]); break; } };
  if (r) bwd(); else fwd();
  // a permutation: the model is the same chain of exchanges done one at a time
  int m[4] = {v[0], v[1], v[2], v[3]};
  if (!r) for (int i = 0; i + 1 < n; ++i) { int t = m[ix[i]]; m[ix[i]] = m[ix[i + 1]]; m[ix[i + 1]] = t; }
  else for (int i = n - 1; i > 0; --i) { int t = m[ix[i]]; m[ix[i]] = m[ix[i - 1]]; m[ix[i - 1]] = t; }
  for (int i = 0; i < 4; ++i) CHECKM(val(x[i]) == m[i], "repeated references: still a permutation of the values");
  if (r) fwd(); else bwd();
  for (int i = 0; i < 4; ++i) CHECKM(val(x[i]) == v[i], "swapr undoes swap, repeated references included");
  DONE();
}
SX_HARNESS(w01_repeat) { w01rep<int>(); }
SX_HARNESS(w01_repeat_tracked) { w01rep<Tracked>(); CHECK(gLive == 0); }
// ---- X01
// over the ring of integers modulo 2^32: every operation but division is exact
typedef cest::complex<unsigned> CU;
static bool isU(const CU &z, unsigned r, unsigned i) { return both(z.real() == r, z.imag() == i); }
SX_HARNESS(x01_ring) {
  unsigned a = symUInt("a"), b = symUInt("b"), c = symUInt("c"), d = symUInt("d"), s = symUInt("s"); const CU x(a, b), y(c, d); CU z;
  switch (pick("op", 20)) {
    case 0: CHECKM(isU(x + y, a + c, b + d), "+"); z = x; { CU &r = (z += y); CHECK(&r == &z); } CHECKM(isU(z, a + c, b + d), "+="); break;
    case 1: CHECKM(isU(x - y, a - c, b - d), "-"); z = x; { CU &r = (z -= y); CHECK(&r == &z); } CHECKM(isU(z, a - c, b - d), "-="); break;
    case 2: CHECKM(isU(x * y, a * c - b * d, a * d + b * c), "*"); z = x; { CU &r = (z *= y); CHECK(&r == &z); } CHECKM(isU(z, a * c - b * d, a * d + b * c), "*="); break;
    case 3: CHECKM(isU(x + s, a + s, b), "complex + scalar"); CHECKM(isU(s + x, a + s, b), "scalar + complex"); z = x; z += s; CHECKM(isU(z, a + s, b), "+= scalar"); break;
    case 4: CHECKM(isU(x - s, a - s, b), "complex - scalar"); CHECKM(isU(s - x, s - a, 0u - b), "scalar - complex"); z = x; z -= s; CHECKM(isU(z, a - s, b), "-= scalar"); break;
    case 5: CHECKM(isU(x * s, a * s, b * s), "complex * scalar"); CHECKM(isU(s * x, a * s, b * s), "scalar * complex"); z = x; z *= s; CHECKM(isU(z, a * s, b * s), "*= scalar"); break;
    case 6: CHECKM(isU(-x, 0u - a, 0u - b), "unary -"); CHECKM(isU(+x, a, b), "unary +"); CHECKM(isU(cest::conj(x), a, 0u - b), "conj"); break;
    case 7: CHECKM(cest::norm(x) == a * a + b * b, "norm"); CHECKM(cest::real(x) == a, "real"); CHECKM(cest::imag(x) == b, "imag"); break;
    case 8: z = x; z.real(s); CHECKM(isU(z, s, b), "real(v)"); z = x; z.imag(s); CHECKM(isU(z, a, s), "imag(v)"); break;
    case 9: z = x; z += z; CHECKM(isU(z, a + a, b + b), "z += z"); z = x; z -= z; CHECKM(isU(z, 0, 0), "z -= z"); break;
    case 10: z = x; z *= z; CHECKM(isU(z, a * a - b * b, a * b + b * a), "z *= z"); break;
    case 11: CHECKM((x == y) == both(a == c, b == d), "=="); CHECKM((x != y) == !both(a == c, b == d), "!="); break;
    case 12: CHECKM((x == s) == both(a == s, b == 0u), "== scalar"); CHECKM((x != s) == !both(a == s, b == 0u), "!= scalar"); CHECKM((s == x) == both(a == s, b == 0u), "scalar =="); CHECKM((s != x) == !both(a == s, b == 0u), "scalar !="); break;
    case 13: z = x; { CU &r = (z = s); CHECK(&r == &z); } CHECKM(isU(z, s, 0u), "= scalar"); break;
    case 14: { CU w(s); CHECKM(isU(w, s, 0u), "construction from a scalar"); CU e; CHECKM(isU(e, 0u, 0u), "default construction"); CU q(x); CHECKM(isU(q, a, b), "copy"); break; }
    case 15: { cest::complex<unsigned short> h((unsigned short)a, (unsigned short)b); CU w(h); CHECKM(isU(w, (unsigned short)a, (unsigned short)b), "converting construction"); z = h; CHECKM(isU(z, (unsigned short)a, (unsigned short)b), "converting assignment"); z = y; z += h; CHECKM(isU(z, c + (unsigned short)a, d + (unsigned short)b), "mixed +="); z = y; z -= h; CHECKM(isU(z, c - (unsigned short)a, d - (unsigned short)b), "mixed -="); break; }
    case 16: { cest::complex<unsigned short> h((unsigned short)a, (unsigned short)b); unsigned p = h.real(), q = h.imag(); z = y; z *= h; CHECKM(isU(z, c * p - d * q, c * q + d * p), "mixed *="); break; }
    case 17: { z = x; CU &r = z; r = z; CHECKM(isU(z, a, b), "self assignment"); break; }
    case 18: { z = x; z -= z.real(); CHECKM(isU(z, 0u, b), "z -= z.real()"); z = x; z *= z.imag(); CHECKM(isU(z, a * b, b * b), "z *= z.imag()"); break; }
    case 19: { CHECKM(isU(x * CU(s), a * s, b * s), "complex * (s,0)"); break; }
  }
  DONE();
}
// integer powers: x^n is the n-fold product, for every n up to the bound
SX_HARNESS(x01_pow) {
  unsigned a = symUInt("a"), b = symUInt("b"); CU x(a, b); int n = (int)pick("n", K + 1); CU p = cest::pow(x, n); unsigned r = 1, i = 0;
  for (int k = 0; k < n; ++k) { unsigned r2 = r * a - i * b, i2 = r * b + i * a; r = r2; i = i2; }
  CHECKM(isU(p, r, i), "pow(z,n) is the n-fold product"); DONE();
}
// large exponents on the units: i^n
SX_HARNESS(x01_unit) {
  int n = symInt("n"); assume(n >= 0); assume(n < (1 << K)); CU p = cest::pow(CU(0u, 1u), n); unsigned q = (unsigned)n & 3u;
  CHECKM(p.real() == (q == 0 ? 1u : q == 2 ? ~0u : 0u), "real part of i^n"); CHECKM(p.imag() == (q == 1 ? 1u : q == 3 ? ~0u : 0u), "imaginary part of i^n"); DONE();
}
// very large exponents, and negative ones
SX_HARNESS(x01_exps) {
  static const int ns[] = {1023, 1024, 4095, 32767, 32768, 65535, 65536, 65537, (1 << 20) + 1, 0x55555555, 0x7ffffffe, 0x7fffffff}; int n = ns[split("n", 12)]; bool neg = split("neg", 2); if (neg) n = split("least", 2) ? -0x7fffffff - 1 : -n;
  unsigned a = symUInt("a"), b = symUInt("b"); if (neg) { unsigned u = split("unit", 4); a = u == 0 ? 1u : u == 2 ? ~0u : 0u; b = u == 1 ? 1u : u == 3 ? ~0u : 0u; } CU x(a, b);
  CU p = cest::pow(x, n); unsigned r = 1, i = 0, br = a, bi = b; if (neg) bi = 0u - bi; for (unsigned m = neg ? 0u - (unsigned)n : (unsigned)n; m; m >>= 1) { if (m & 1) { unsigned r2 = r * br - i * bi, i2 = r * bi + i * br; r = r2; i = i2; } unsigned t = br * br - bi * bi; bi = br * bi + bi * br; br = t; }
  if (neg) CHECKM(both(p.real() == r, p.imag() == i), "z^-n is the n-fold product of the reciprocal of a unit");
  else CHECKM(both((p.real() & 15u) == (r & 15u), (p.imag() & 15u) == (i & 15u)), "z^n is the n-fold product, modulo 16"); DONE();
}
// division and negative powers over a finite field with no square root of -1: z/w is the number whose product with w is z
template <unsigned P> struct Fp {
  unsigned v; constexpr Fp(unsigned x = 0) : v(x % P) {}
  static unsigned inv(unsigned x) { unsigned r = 0; for (unsigned k = 1; k < P; ++k) r |= (x * k % P == 1) ? k : 0u; return r; }
  Fp &operator+=(const Fp &o) { v = (v + o.v) % P; return *this; } Fp &operator-=(const Fp &o) { v = (v + P - o.v) % P; return *this; }
  Fp &operator*=(const Fp &o) { v = v * o.v % P; return *this; } Fp &operator/=(const Fp &o) { v = v * inv(o.v) % P; return *this; }
  friend Fp operator+(Fp a, const Fp &b) { return a += b; } friend Fp operator-(Fp a, const Fp &b) { return a -= b; } friend Fp operator*(Fp a, const Fp &b) { return a *= b; } friend Fp operator/(Fp a, const Fp &b) { return a /= b; }
  friend Fp operator-(const Fp &a) { return Fp(P - a.v); } friend bool operator==(const Fp &a, const Fp &b) { return a.v == b.v; } friend bool operator!=(const Fp &a, const Fp &b) { return a.v != b.v; }
};
template <unsigned P> static void x01field() {
  typedef Fp<P> F; typedef cest::complex<F> CF; auto sym = [](const char *n) { unsigned u = (unsigned)sx_sym(n, 8); assume(u < P); F f; f.v = u; return f; };
  // for the larger field the divisor is split into its cases, the dividend stays symbolic
  F a = sym("a"), b = sym("b"); F c, d; if (P > 3) { c.v = split("c", P); d.v = split("d", P); } else { c = sym("c"); d = sym("d"); } CF x(a, b), y(c, d); assume(either(c.v != 0, d.v != 0));
  auto ml = [](const CF &p, const CF &q, unsigned &r, unsigned &i) { r = (p.real().v * q.real().v + (P * P) - p.imag().v * q.imag().v) % P; i = (p.real().v * q.imag().v + p.imag().v * q.real().v) % P; };
  auto isq = [&](const CF &q, unsigned er, unsigned ei) { unsigned r, i; ml(q, y, r, i); CHECKM(r == er, "quotient times divisor is the dividend (real part)"); CHECKM(i == ei, "quotient times divisor is the dividend (imaginary part)"); };
  switch (pick("op", 5)) {
    case 0: { isq(x / y, a.v, b.v); break; }
    case 1: { CF z = x; CF &r = (z /= y); CHECK(&r == &z); isq(z, a.v, b.v); break; }
    case 2: { CF z = y; z /= z; CHECKM(both(z.real().v == 1, z.imag().v == 0), "z /= z is 1"); break; }
    case 3: { isq(a / y, a.v, 0); break; }
    case 4: { F s = sym("s"); assume(s.v != 0); CF q = x / s; CHECK(q.real().v * s.v % P == a.v); CHECK(q.imag().v * s.v % P == b.v); CF z = x; z /= s; CHECK(q == z); break; }
  }
  DONE();
}
SX_HARNESS(x01_field3) { x01field<3>(); }
SX_HARNESS(x01_field7) { x01field<7>(); }
SX_HARNESS(x01_negpow) {
  typedef Fp<3> F; typedef cest::complex<F> CF; auto sym = [](const char *n) { unsigned u = (unsigned)sx_sym(n, 8); assume(u < 3); F f; f.v = u; return f; };
  F c = sym("c"), d = sym("d"); assume(either(c.v != 0, d.v != 0)); CF y(c, d); int n = 1 + (int)pick("n", K); CF p = cest::pow(y, -n); unsigned r = p.real().v, i = p.imag().v;
  for (int k = 0; k < n; ++k) { unsigned r2 = (r * c.v + 9 - i * d.v) % 3, i2 = (r * d.v + i * c.v) % 3; r = r2; i = i2; }
  CHECKM(r == 1, "pow(z,-n) * z^n is 1 (real part)"); CHECKM(i == 0, "pow(z,-n) * z^n is 1 (imaginary part)"); DONE();
}
// doubles: the same formulas on every pair of floating point components (equal, or both not-a-number)
typedef cest::complex<double> CD;
static bool sm(double a, double b) { return either(a == b, both(a != a, b != b)); }
SX_HARNESS(x01_double) {
  double a = symDouble("a"), b = symDouble("b"), c = symDouble("c"), d = symDouble("d"), s = symDouble("s"); const CD x(a, b), y(c, d); CD z;
  switch (pick("op", 12)) {
    case 0: z = x + y; CHECK(sm(z.real(), a + c)); CHECK(sm(z.imag(), b + d)); z = x; z += y; CHECK(sm(z.real(), a + c)); CHECK(sm(z.imag(), b + d)); break;
    case 1: z = x - y; CHECK(sm(z.real(), a - c)); CHECK(sm(z.imag(), b - d)); z = x; z -= y; CHECK(sm(z.real(), a - c)); CHECK(sm(z.imag(), b - d)); break;
    case 2: z = x * y; CHECK(sm(z.real(), a * c - b * d)); CHECK(sm(z.imag(), a * d + b * c)); z = x; z *= y; CHECK(sm(z.real(), a * c - b * d)); CHECK(sm(z.imag(), a * d + b * c)); break;
    case 3: { z = x / y; double n = c * c + d * d; CHECK(sm(z.real(), (a * c + b * d) / n)); CHECK(sm(z.imag(), (b * c - a * d) / n)); z = x; z /= y; CHECK(sm(z.real(), (a * c + b * d) / n)); CHECK(sm(z.imag(), (b * c - a * d) / n)); break; }
    case 4: z = x + s; CHECK(sm(z.real(), a + s)); CHECK(sm(z.imag(), b)); z = s + x; CHECK(sm(z.real(), a + s)); CHECK(sm(z.imag(), b)); break;
    case 5: z = x - s; CHECK(sm(z.real(), a - s)); CHECK(sm(z.imag(), b)); z = s - x; CHECK(sm(z.real(), s - a)); CHECK(sm(z.imag(), -b)); break;
    case 6: z = x * s; CHECK(sm(z.real(), a * s)); CHECK(sm(z.imag(), b * s)); z = s * x; CHECK(sm(z.real(), a * s)); CHECK(sm(z.imag(), b * s)); break;
    case 7: z = x / s; CHECK(sm(z.real(), a / s)); CHECK(sm(z.imag(), b / s)); z = x; z /= s; CHECK(sm(z.real(), a / s)); break;
    case 8: z = -x; CHECK(sm(z.real(), -a)); CHECK(sm(z.imag(), -b)); z = cest::conj(x); CHECK(sm(z.real(), a)); CHECK(sm(z.imag(), -b)); break;
    case 9: CHECK(sm(cest::norm(x), a * a + b * b)); break;
    case 10: CHECK((x == y) == both(a == c, b == d)); CHECK((x != y) == !both(a == c, b == d)); CHECK((x == s) == both(a == s, b == 0.0)); break;
    case 11: { z = x; z /= z; double n = a * a + b * b; CHECK(sm(z.real(), (a * a + b * b) / n)); CHECK(sm(z.imag(), (b * a - a * b) / n)); z = x; z *= z; CHECK(sm(z.real(), a * a - b * b)); CHECK(sm(z.imag(), a * b + b * a)); break; }
  }
  DONE();
}
