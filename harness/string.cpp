#include "sx.h"
#include "cest/string.hpp"
#include "cest/iostream.hpp"
#include <iterator>
#include "wide.h"
#include "bounds.h"
#ifndef K
#define K 2
#endif
#ifndef N0
#define N0 3
#endif
#ifndef GROW
#define GROW 20
#endif
#ifndef HAY
#define HAY 4
#endif
#ifndef NEEDLE
#define NEEDLE 3
#endif
// reference model: a plain character array
template <class C> struct Chars {
  C a[160]; int n = 0;
  Chars() {}
  Chars(const Chars &o) { n = o.n; for (int i = 0; i < n; ++i) a[i] = o.a[i]; }
  Chars &operator=(const Chars &o) { n = o.n; for (int i = 0; i < n; ++i) a[i] = o.a[i]; return *this; }
  void push(C c) { a[n++] = c; }
};
static bool both(bool a, bool b) { return (unsigned)a & (unsigned)b; }
static bool either(bool a, bool b) { return (unsigned)a | (unsigned)b; }
template <class C> static C symC(const char *n) { return (C)sx_sym(n, sizeof(C) * 8); }
// a character different from NUL, never NUL by construction (no case split)
template <class C> static C symNZ(const char *n) { C c = symC<C>(n); assume(c != 0); return c; }
template <class S, class C> static void same(const S &s, const Chars<C> &m) {
  CHECK((int)s.size() == m.n); CHECK(s.length() == s.size()); CHECK(s.empty() == (m.n == 0)); CHECK(s.capacity() >= s.size());
  for (int i = 0; i < m.n; ++i) CHECKM(s[i] == m.a[i], "the string holds the denoted characters");
  CHECKM(s.c_str()[m.n] == C(), "c_str()[size()] is the terminator");
  CHECK(s.data() == s.c_str()); CHECK(s.end() - s.begin() == m.n); CHECK(s.begin() == s.cbegin()); CHECK(s.end() == s.cend());
  int i = 0; for (auto it = s.begin(); it != s.end(); ++it, ++i) CHECKM(*it == m.a[i], "iteration yields the denoted characters");
  CHECK(i == m.n);
  S &w = const_cast<S &>(s); const C *d = s.data(); // the accessors of a non-const string refer to the same characters
  CHECK(w.data() == d); CHECK(w.begin() == d); CHECKM(w.end() == d + m.n, "iteration over a non-const string ends after the last character"); CHECK(w.cbegin() == d); CHECK(w.cend() == d + m.n); for (int i = 0; i < m.n; ++i) CHECK(&w[i] == d + i);
  if (m.n) { CHECK(s.front() == m.a[0]); CHECK(s.back() == m.a[m.n - 1]); CHECK(&w.front() == d); CHECK(&w.back() == d + (m.n - 1)); }
}
template <class C> using Str = cest::basic_string<C>;
template <class C> static Str<C> mk(Chars<C> &m, unsigned n) { C buf[64]; for (unsigned i = 0; i < n; ++i) { buf[i] = symC<C>("c"); m.push(buf[i]); } return Str<C>(buf, n); }

// an input iterator over an array
template <class C> struct InIt {
  using iterator_category = std::input_iterator_tag; using value_type = C; using difference_type = std::ptrdiff_t; using pointer = const C *; using reference = const C &;
  const C *p; const C &operator*() const { return *p; } InIt &operator++() { ++p; return *this; } InIt operator++(int) { InIt t = *this; ++p; return t; }
  bool operator==(const InIt &o) const { return p == o.p; } bool operator!=(const InIt &o) const { return p != o.p; }
};

template <class C, int ALIAS> static void step(Str<C> &a, Chars<C> &ma, Str<C> &b, Chars<C> &mb) {
  using S = Str<C>;
  unsigned op = ALIAS == 2 ? 15 + pick("op", 8) : pick("op", ALIAS ? 23 : 15);
  switch (op) {
  case 0: { C c = symC<C>("c"); a.push_back(c); ma.push(c); break; }
  case 1: { assume(ma.n > 0); a.pop_back(); --ma.n; break; }
  case 2: { C buf[4]; unsigned n = pick("n", 4); for (unsigned i = 0; i < n; ++i) { buf[i] = symC<C>("c"); ma.push(buf[i]); } S &r = a.append(buf, n); CHECK(&r == &a); break; }
  case 3: { S &r = a.append(b); CHECK(&r == &a); for (int i = 0; i < mb.n; ++i) ma.push(mb.a[i]); break; }
  case 4: { S &r = (a += b); CHECK(&r == &a); for (int i = 0; i < mb.n; ++i) ma.push(mb.a[i]); break; }
  case 5: { C c = symC<C>("c"); S &r = (a += c); CHECK(&r == &a); ma.push(c); break; }
  case 6: { S &r = (a = b); CHECK(&r == &a); ma = mb; break; }
  case 7: { b = a; mb = ma; break; }
  case 8: { S w(a); same(w, ma); CHECKM(w == a, "a copy equals its source"); w.push_back(C(1)); same(a, ma); S w2 = b; a = w2; ma = mb; break; }
  case 9: { C buf[6]; unsigned n = pick("n", 6); ma.n = 0; for (unsigned i = 0; i < n; ++i) { buf[i] = symNZ<C>("z"); ma.push(buf[i]); } buf[n] = 0; if (pick("how", 2)) a = buf; else { S w(buf); same(w, ma); a = w; } break; }
  case 10: { unsigned n = pick("n", N0 + 4); auto c = a.capacity(); a.reserve(n); CHECK(a.capacity() >= n); CHECK(a.capacity() >= c); break; }
  case 11: { a.clear(); ma.n = 0; break; }
  case 12: { assume(ma.n > 0); unsigned i = pick("i", ma.n); C c = symC<C>("c"); switch (pick("how", 4)) { case 0: a[i] = c; break; case 1: *(a.begin() + i) = c; break; case 2: a.data()[i] = c; break; default: if (i == 0) a.front() = c; else { a.back() = c; i = ma.n - 1; } } ma.a[i] = c; break; }
  case 13: { Chars<C> r; C buf[6]; unsigned n = pick("n", 6); for (unsigned i = 0; i < n; ++i) { buf[i] = symC<C>("c"); r.push(buf[i]); } S w(InIt<C>{buf}, InIt<C>{buf + n}); same(w, r); w.push_back(C(2)); CHECK(w.size() == n + 1); a = w; ma = r; ma.push(C(2)); break; }
  case 14: { S w; Chars<C> e; same(w, e); w = a; same(w, ma); w.clear(); same(w, e); w += b; same(w, mb); break; }
  // operations on the string's own characters
  case 15: { S &r = a; a = r; break; }
  case 16: { a += a; int n = ma.n; for (int i = 0; i < n; ++i) ma.push(ma.a[i]); break; }
  case 17: { assume(ma.n > 0); unsigned i = pick("i", ma.n); a.push_back(a[i]); ma.push(ma.a[i]); break; }
  case 18: { assume(ma.n > 0); a.push_back(a.back()); ma.push(ma.a[ma.n - 1]); break; }
  case 19: { int z = ma.n; for (int i = ma.n - 1; i >= 0; --i) if (ma.a[i] == 0) z = i; a = a.c_str(); ma.n = z; break; }
  case 20: { unsigned i = pick("i", ma.n + 1), k = pick("k", ma.n + 1); assume(i + k <= (unsigned)ma.n); a.append(a.data() + i, k); for (unsigned j = 0; j < k; ++j) ma.push(ma.a[i + j]); break; }
  case 21: { a.append(a); int n = ma.n; for (int i = 0; i < n; ++i) ma.push(ma.a[i]); break; }
  case 22: { unsigned i = pick("i", ma.n + 1); for (int j = i; j < ma.n; ++j) assume(ma.a[j] != 0); a = a.c_str() + i; Chars<C> r; for (int j = i; j < ma.n; ++j) r.push(ma.a[j]); ma = r; break; }
  }
}
template <class C, int ALIAS> static void hist(unsigned k) {
  Chars<C> ma, mb; Str<C> a = mk<C>(ma, pick("na", N0 + 1)), b = mk<C>(mb, pick("nb", N0));
  if (pick("slack", 2)) a.reserve(ma.n + 3);
  for (unsigned i = 0; i < k; ++i) { step<C, ALIAS>(a, ma, b, mb); same(a, ma); }
  same(b, mb);
  obs(a.size()); if (ma.n) obs((unsigned)a[0]);
  DONE();
}
SX_HARNESS(s01_hist) { hist<char, 0>(K); }
SX_HARNESS(s01_wide) { hist<wchar_t, 0>(1); }
SX_HARNESS(s01_c16) { hist<char16_t, 0>(1); }
SX_HARNESS(s04_hist) { hist<char, 1>(K); }
SX_HARNESS(s04_alias) { hist<char, 2>(K + 1); }
SX_HARNESS(s04_wide) { hist<wchar_t, 1>(1); }
// larger sizes: build to any length in a number of ways, then one operation
template <int ALIAS> static void grow() {
  using C = char; unsigned n = pick("n", GROW); Chars<C> ma, mb; Str<C> a;
  switch (pick("how", 4)) {
  case 0: { C buf[GROW + 1]; for (unsigned i = 0; i < n; ++i) { buf[i] = symChar("c"); ma.push(buf[i]); } Str<C> w(buf, n); a = w; break; }
  case 1: for (unsigned i = 0; i < n; ++i) { C c = symChar("c"); a.push_back(c); ma.push(c); } break;
  case 2: a.reserve(n); for (unsigned i = 0; i < n; ++i) { C c = symChar("c"); a += c; ma.push(c); } break;
  case 3: { C buf[GROW + 1]; for (unsigned i = 0; i < n; ++i) { buf[i] = symChar("c"); ma.push(buf[i]); } Str<C> w(InIt<C>{buf}, InIt<C>{buf + n}); a.append(w); break; }
  }
  CHECK(a.size() == n);
  Str<C> b = mk<C>(mb, pick("nb", 2));
  step<C, ALIAS>(a, ma, b, mb);
  CHECK((int)a.size() == ma.n); CHECK(a.capacity() >= a.size()); CHECK(a.c_str()[ma.n] == 0);
  if (ma.n) { unsigned i = symUInt("index"); assume(i < (unsigned)ma.n); CHECKM(a[i] == ma.a[i], "character at an arbitrary index"); }
  same(b, mb); DONE();
}
SX_HARNESS(s01_grow) { grow<0>(); }
SX_HARNESS(s04_grow) { grow<2>(); }
SX_HARNESS(s04_ctor) { // buffers are released with the size they were allocated with; nothing is left
  { unsigned n = pick("n", GROW); char buf[GROW + 1]; for (unsigned i = 0; i < n; ++i) buf[i] = symChar("c");
    cest::string a(buf, n), b(a), c(InIt<char>{buf}, InIt<char>{buf + n}), d; d = c; d = b; a = d; b = cest::string(); b += a; c.clear(); c.push_back('x'); d.reserve(n + 5); d = ""; d = a; std::allocator<char> al; cest::string e(al), f(buf, n, al); e = f; CHECK(e == d); CHECK(f.get_allocator() == al); }
  DONE();
}
// ------------------------------------------------------------------------------------------------ find
static uint64_t refFind(const Chars<char> &h, const Chars<char> &s, uint64_t pos) {
  for (int i = h.n - s.n; i >= 0; --i) {} // (same complexity on every path)
  uint64_t r = ~0ull;
  for (int i = h.n - s.n; i >= 0; --i) { bool eq = (uint64_t)i >= pos; for (int j = 0; j < s.n; ++j) eq = both(eq, h.a[i + j] == s.a[j]); r = eq ? (uint64_t)i : r; }
  return r;
}
SX_HARNESS(s02_find) {
  Chars<char> h, s; unsigned nh = pick("nh", HAY + 1), ns = pick("ns", NEEDLE + 1); cest::string a = mk<char>(h, nh), b = mk<char>(s, ns);
  uint64_t pos = symU64("pos"); uint64_t got, want = refFind(h, s, pos);
  switch (pick("form", 3)) {
  case 0: got = a.find(b, pos); break;
  case 1: got = a.find(b.data(), pos, ns); break;
  default: for (unsigned i = 0; i < ns; ++i) assume(s.a[i] != 0); got = a.find(b.c_str(), pos);
  }
  CHECKM(got == want, "find returns the least matching index at or after pos, or npos");
  obs(got); DONE();
}
SX_HARNESS(s02_default) { // default start position
  Chars<char> h, s; unsigned nh = pick("nh", HAY + 1), ns = pick("ns", NEEDLE + 1); cest::string a = mk<char>(h, nh), b = mk<char>(s, ns); uint64_t want = refFind(h, s, 0), got;
  switch (pick("form", 3)) {
  case 0: got = a.find(b); break;
  case 1: for (unsigned i = 0; i < ns; ++i) assume(s.a[i] != 0); got = a.find(b.c_str()); break;
  default: { char c = symChar("c"); Chars<char> one; one.push(c); want = refFind(h, one, 0); got = a.find(c); }
  }
  CHECK(got == want); CHECK((cest::string::npos) == ~(decltype(cest::string::npos))0); obs(got); DONE();
}
SX_HARNESS(s02_char) {
  Chars<char> h, s; unsigned nh = pick("nh", HAY + 4); cest::string a = mk<char>(h, nh); s.push(symChar("c")); uint64_t pos = symU64("pos");
  if (pick("grown", 2)) { a.reserve(nh + 9); }
  uint64_t got = a.find(s.a[0], pos), want = refFind(h, s, pos);
  CHECKM(got == want, "find(char) returns the least matching index at or after pos, or npos"); obs(got); DONE();
}
SX_HARNESS(s02_self) { // a string and its parts
  Chars<char> h; unsigned nh = pick("nh", HAY + 2); cest::string a = mk<char>(h, nh); CHECK(a.find(a) == 0);
  unsigned i = pick("i", nh + 1), k = pick("k", nh + 1); assume(i + k <= nh); uint64_t r = a.find(a.data() + i, 0, k); CHECK(r <= i); obs(r);
  uint64_t r2 = a.find(a.data() + i, i, k); CHECK(r2 == i); DONE();
}
// ------------------------------------------------------------------------------------------------ compare
static int refCmp(const Chars<char> &x, const Chars<char> &y) {
  int r = (x.n > y.n) - (x.n < y.n); int n = x.n < y.n ? x.n : y.n;
  for (int i = n - 1; i >= 0; --i) { unsigned p = (unsigned char)x.a[i], q = (unsigned char)y.a[i]; r = p == q ? r : p < q ? -1 : 1; }
  return r;
}
static int sgn(int x) { return (x > 0) - (x < 0); }
SX_HARNESS(s03_compare) {
  Chars<char> x, y; cest::string a = mk<char>(x, pick("na", HAY + 1)), b = mk<char>(y, pick("nb", HAY + 1)); int r = refCmp(x, y);
  int ab = a.compare(b), ba = b.compare(a);
  CHECKM(sgn(ab) == r, "compare agrees with unsigned lexicographic order"); CHECKM(sgn(ba) == -r, "compare is antisymmetric");
  CHECKM((a == b) == (r == 0), "== agrees with equality of the character sequences"); CHECK((a != b) == (r != 0)); CHECK((a < b) == (r < 0)); CHECK((b < a) == (r > 0)); CHECK((b == a) == (r == 0));
  CHECK(a == a); CHECK(!(a < a)); CHECK(a.compare(a) == 0); obs(sgn(ab) + 2); DONE();
}
SX_HARNESS(s03_literal) {
  Chars<char> x, y; unsigned nb = pick("nb", HAY + 1); cest::string a = mk<char>(x, pick("na", HAY + 1)); char lit[HAY + 1]; for (unsigned i = 0; i < nb; ++i) { lit[i] = symNZ<char>("z"); y.push(lit[i]); } lit[nb] = 0; const char *l = lit; int r = refCmp(x, y);
  CHECKM(sgn(a.compare(l)) == r, "compare with a literal agrees with unsigned lexicographic order"); CHECK((a == l) == (r == 0)); CHECK((l == a) == (r == 0)); CHECK((l != a) == (r != 0)); CHECK((a < l) == (r < 0)); CHECK((l < a) == (r > 0)); obs(r + 2); DONE();
}
SX_HARNESS(s03_trans) {
  Chars<char> x, y, z; cest::string a = mk<char>(x, pick("na", 4)), b = mk<char>(y, pick("nb", 4)), c = mk<char>(z, pick("nc", 4));
  bool ab = a < b, bc = b < c, ac = a < c; CHECKM(either(!both(ab, bc), ac), "< is transitive");
  bool eab = a == b, ebc = b == c, eac = a == c; CHECKM(either(!both(eab, ebc), eac), "== is transitive"); CHECKM((unsigned)ab + (unsigned)(b < a) + (unsigned)eab == 1, "exactly one of <, ==, > holds"); DONE();
}
SX_HARNESS(s03_long) { // two long strings that differ in at most one place, or one a prefix of the other
  unsigned n = pick("n", GROW); char buf[GROW + 1], buf2[GROW + 1]; Chars<char> x, y; for (unsigned i = 0; i < n; ++i) buf[i] = buf2[i] = (char)('a' + i % 7);
  unsigned d = pick("diff", n + 1); if (d < n) { buf[d] = symChar("p"); buf2[d] = symChar("q"); }
  unsigned n2 = pick("cut", 3); n2 = n2 > n ? 0 : n - n2; for (unsigned i = 0; i < n; ++i) x.push(buf[i]); for (unsigned i = 0; i < n2; ++i) y.push(buf2[i]);
  cest::string a(buf, n), b(buf2, n2); if (pick("spare", 2)) a.reserve(n + 7);
  int r = refCmp(x, y); CHECK(sgn(a.compare(b)) == r); CHECK(sgn(b.compare(a)) == -r); CHECK((a == b) == (r == 0)); CHECK((a < b) == (r < 0)); obs(r + 2); DONE();
}
SX_HARNESS(s03_len) { // a common prefix, lengths far apart
  unsigned n = pick("n", 3), d = pick("more", GROW); static char buf[GROW + 8]; for (unsigned i = 0; i < n + d; ++i) buf[i] = 'm'; if (n) buf[0] = symChar("c");
  cest::string a(buf, n), b(buf, n + d); if (n && buf[0] == 0) { CHECK(a.compare("") > 0); DONE(); return; }
  int r = d ? 1 : 0; CHECKM(sgn(b.compare(a)) == r, "a proper prefix orders first"); CHECKM(sgn(a.compare(b)) == -r, "a proper prefix orders first"); CHECK((a == b) == !d); CHECK((a != b) == !!d); CHECK((a < b) == !!d); CHECK(!(b < a));
  buf[n + d] = 0; CHECKM(sgn(a.compare(buf)) == -r, "a proper prefix orders first"); buf[n] = 0; CHECKM(sgn(b.compare(buf)) == r, "a proper prefix orders first"); CHECK((b == buf) == !d); obs(d); DONE();
}
SX_HARNESS(s03_wide) {
  unsigned na = pick("na", 3), nb = pick("nb", 3); Chars<char16_t> x, y; Str<char16_t> a = mk<char16_t>(x, na), b = mk<char16_t>(y, nb);
  int r = (x.n > y.n) - (x.n < y.n); int n = x.n < y.n ? x.n : y.n; for (int i = n - 1; i >= 0; --i) r = x.a[i] == y.a[i] ? r : x.a[i] < y.a[i] ? -1 : 1;
  CHECK(sgn(a.compare(b)) == r); CHECK((a == b) == (r == 0)); CHECK((a != b) == (r != 0)); CHECK((a < b) == (r < 0)); DONE();
}
// lengths around powers of two; every character is a different function of one symbolic value
#include "huge.h"
static char big1[65600];
static char at1(unsigned i, char s) { return (char)((i * 7 + (i >> 8)) ^ (unsigned char)s); }
template <class S> static bool holds(const S &a, unsigned n, char s) {
  bool ok = a.size() == n; ok = both(ok, a.length() == n); ok = both(ok, a.capacity() >= n); unsigned i = 0;
  for (auto it = a.begin(); it != a.end(); ++it, ++i) ok = both(ok, *it == at1(i, s));
  ok = both(ok, i == n); return both(ok, a.c_str()[n] == 0);
}
SX_HARNESS(s01_huge) {
  const unsigned n = hugeN(); const char s = symChar("salt"); cest::string a; for (unsigned i = 0; i < n; ++i) big1[i] = at1(i, s);
  switch (split("how", 4)) {
  case 0: for (unsigned i = 0; i < n; ++i) a.push_back(big1[i]); break;
  case 1: a.reserve(n); CHECK(a.capacity() >= n); a.append(big1, n / 2); for (unsigned i = n / 2; i < n; ++i) a += big1[i]; break;
  case 2: a.append(big1, n); break;
  case 3: { cest::string w(InIt<char>{big1}, InIt<char>{big1 + n}); a += w; break; }
  }
  CHECKM(holds(a, n, s), "the string holds the denoted characters"); CHECK(a[n - 1] == big1[n - 1]); CHECK(a.back() == big1[n - 1]);
  cest::string b(a), c; CHECKM(holds(b, n, s), "a copy has the characters of its source"); c = b; CHECKM(holds(c, n, s), "assignment copies all characters"); CHECK(a == c);
  b.pop_back(); CHECKM(holds(b, n - 1, s), "pop_back removes the last character"); CHECK(!(a == b)); b += at1(n - 1, s); b.push_back(at1(n, s)); CHECKM(holds(b, n + 1, s), "appending to a copy");
  c.append(c); CHECK(c.size() == 2 * n); bool ok = true; for (unsigned i = 0; i < n; ++i) { ok = both(ok, c[i] == big1[i]); ok = both(ok, c[n + i] == big1[i]); } CHECKM(ok, "appending a string to itself doubles it"); CHECK(c.c_str()[2 * n] == 0);
  a.clear(); CHECK(a.empty()); CHECK(a.c_str()[0] == 0); for (unsigned i = 0; i < n; ++i) big1[i] = 'x'; big1[n] = 0; c = big1; CHECK(c.size() == n); CHECK(c.c_str()[n] == 0); CHECK(c[n - 1] == 'x'); obs(c.size()); DONE();
}
SX_HARNESS(s02_huge) { // a long haystack: the needle is only at its end
  const unsigned n = hugeN(); char x = symChar("x"); for (unsigned i = 0; i < n; ++i) big1[i] = i % 3 ? 'a' : 'b'; big1[n - 2] = 'c'; big1[n - 1] = x; cest::string h(big1, n); const unsigned long np = cest::string::npos; unsigned start = split("start", 3); start = start == 0 ? 0 : start == 1 ? n / 2 : n - 3;
  CHECKM(h.find('c', start) == (x == 'c' && start > n - 2 ? n - 1 : n - 2), "find of a character"); char nd[3] = {'c', x, 0}; CHECKM(h.find(nd, start, 2) == n - 2, "find of a needle at the end"); CHECKM(h.find(cest::string(nd, 2), start) == n - 2, "find of a string at the end"); CHECKM(h.find("cq", start) == (x == 'q' ? n - 2 : np), "find of a literal"); CHECK(h.find('d', start) == (x == 'd' ? n - 1 : np)); CHECK(h.find("", n) == n); CHECK(h.find("", n + 1) == np); CHECK(h.find(h) == 0); CHECK(h.find(h, 1) == np); obs(n); DONE();
}
SX_HARNESS(s03_huge) { // long strings that agree except at one place near the end, or one a prefix of the other
  const unsigned n = hugeN(); for (unsigned i = 0; i < n; ++i) big1[i] = i % 3 ? 'a' : 'b'; char x = symChar("x"), y = symChar("y"); unsigned p = n - 1 - split("place", 3); cest::string a(big1, n), b(a), c(big1, n / 2); a[p] = x; b[p] = y;
  int r = a.compare(b); unsigned char ux = (unsigned char)x, uy = (unsigned char)y; CHECKM((r < 0) == (ux < uy) && (r > 0) == (ux > uy), "compare orders by the first difference"); CHECK((a == b) == (x == y)); CHECK((a != b) == (x != y)); CHECK((a < b) == (ux < uy)); CHECK((b < a) == (uy < ux)); CHECK(a.compare(c) > 0); CHECK(c.compare(a) < 0); CHECK(c < a); CHECK(!(a < c)); CHECK(!(a == c)); CHECK(a.compare(a) == 0); assume(x != 0); CHECK(a == a.c_str()); CHECK(!(a < a.c_str())); CHECK((b < a.c_str()) == (uy < ux)); CHECK(a != c.c_str()); CHECK(a.c_str() == a); obs(n); DONE();
}
