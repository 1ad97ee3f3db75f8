#include "seq.h"
#include "cest/vector.hpp"
#include <stdexcept>
#include "bounds.h"
#ifndef K
#define K 4
#endif
#ifndef N0
#define N0 3
#endif
#ifndef GROW
#define GROW 40
#endif
template <class V> static void same(const V &v, const Seq &m) {
  CHECK((int)v.size() == m.n);
  CHECK(v.empty() == (m.n == 0));
  CHECK(v.capacity() >= v.size());
  CHECK(v.end() - v.begin() == m.n);
  int i = 0;
  for (auto it = v.begin(); it != v.end(); ++it, ++i) CHECKM(val(*it) == m.a[i], "iteration yields the denoted sequence");
  CHECK(i == m.n);
  for (auto it = v.cbegin(); it != v.cend(); ++it) --i;
  CHECK(i == 0);
  for (int j = 0; j < m.n; ++j) CHECKM(val(v[j]) == m.a[j], "indexing yields the denoted sequence");
  if (m.n) { CHECK(val(v.front()) == m.a[0]); CHECK(val(v.back()) == m.a[m.n - 1]); }
  V &w = const_cast<V &>(v); // the accessors of a non-const vector refer to the same elements
  if (m.n) { auto d = v.data(); CHECK(w.data() == d); CHECK(v.begin() == d); CHECK(w.begin() == d); CHECK(w.end() == d + m.n); CHECK(w.cend() == d + m.n); for (int j = 0; j < m.n; ++j) { CHECK(&w[j] == d + j); CHECK(&v.at(j) == d + j); CHECK(&w.at(j) == d + j); } CHECK(&w.front() == d); CHECK(&w.back() == d + (m.n - 1)); CHECK(&v.front() == d); CHECK(&v.back() == d + (m.n - 1)); }
}
template <class V> static void rev(V &v, const Seq &m) {
  int i = m.n;
  for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; CHECKM(val(*it) == m.a[i], "reverse iteration yields the denoted sequence backwards"); }
  CHECK(i == 0);
  const V &c = v; i = m.n;
  for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; CHECKM(val(*it) == m.a[i], "const reverse iteration yields the denoted sequence backwards"); }
  CHECK(i == 0);
  for (auto it = v.begin(); it != v.end(); ++it, ++i) CHECK(val(*it) == m.a[i]);
  if (m.n) { CHECK(&v.front() == v.data()); CHECK(&v.back() == v.data() + (m.n - 1)); }
}
template <class T> static void fill(cest::vector<T> &v, Seq &m, unsigned n) { for (unsigned i = 0; i < n; ++i) { int x = symInt("x"); v.push_back(T(x)); m.push_back(x); } }

// one operation on a (with the help of b)
template <class T, bool ALIAS> static void step(cest::vector<T> &a, Seq &ma, cest::vector<T> &b, Seq &mb) {
  using V = cest::vector<T>;
  switch (split("op", ALIAS ? 18 : 15)) {
  case 0: { int x = symInt("x"); const T t(x); a.push_back(t); ma.push_back(x); break; }
  case 1: { int x = symInt("x"); a.push_back(T(x)); ma.push_back(x); break; }
  case 2: { assume(ma.n > 0); a.pop_back(); ma.pop_back(); break; }
  case 3: { unsigned n = pick("n", N0 + 4); a.resize(n); ma.resize(n); break; }
  case 4: { unsigned n = pick("n", N0 + 4); auto c = a.capacity(); a.reserve(n); CHECK(a.capacity() >= n); CHECK(a.capacity() >= c); break; }
  case 5: { a.clear(); ma.clear(); break; }
  case 6: { unsigned i = pick("i", ma.n + 1), j = pick("j", ma.n + 1); assume(i <= j); auto r = a.erase(a.begin() + i, a.begin() + j); CHECKM(r - a.begin() == (long)i, "erase returns the position after the erased range"); ma.erase(i, j); break; }
  case 7: { V w(a); same(w, ma); CHECKM(w == a, "a copy equals its source"); b = w; mb = ma; break; }
  case 8: { a = b; ma = mb; break; }
  case 9: { b = a; mb = ma; break; }
  case 10: { a.swap(b); Seq t = ma; ma = mb; mb = t; break; }
  case 11: { V w(static_cast<V &&>(a)); same(w, ma); a = V(); ma.clear(); a = w; ma.n = (int)w.size(); for (int i = 0; i < ma.n; ++i) ma.a[i] = val(w[i]); break; }
  case 12: { V w(b); a = static_cast<V &&>(w); ma = mb; break; }
  case 13: { V &r = a; a = r; break; }
  case 14: { unsigned n = pick("n", N0 + 1); V w(n); Seq z; z.resize(n); same(w, z); a = w; ma = z; break; }
  // arguments that refer to the vector's own elements
  case 15: { assume(ma.n > 0); unsigned i = pick("i", ma.n); a.push_back(a[i]); ma.push_back(ma.a[i]); break; }
  case 16: { assume(ma.n > 0); int x = ma.a[ma.n - 1]; a.push_back(a.back()); ma.push_back(x); break; }
  case 17: { V &r = a; a = static_cast<V &&>(r); ma.n = (int)a.size(); for (int i = 0; i < ma.n; ++i) ma.a[i] = val(a[i]); break; }
  }
}
template <class T, bool ALIAS> static void hist(unsigned k) {
  {
    cest::vector<T> a, b; Seq ma, mb;
    fill(a, ma, pick("na", N0 + 1)); fill(b, mb, pick("nb", N0 + 1));
    if (split("slack", 2)) a.reserve(ma.n + 2);
    for (unsigned i = 0; i < k; ++i) { step<T, ALIAS>(a, ma, b, mb); same(a, ma); }
    same(b, mb); rev(a, ma);
    CHECKM((a == b) == [&] { bool e = ma.n == mb.n; for (int i = 0; i < ma.n && i < mb.n; ++i) e = both(e, ma.a[i] == mb.a[i]); return e; }(), "== compares element sequences");
    obs(a.size()); if (ma.n) obs((unsigned)val(a[0]));
  }
  CHECKM(gLive == 0, "every constructed element is destroyed exactly once");
  DONE();
}
SX_HARNESS(v01_hist) { hist<int, true>(K); }
SX_HARNESS(v02_hist) { hist<Tracked, true>(K); }
// longer single-vector histories
template <class T> static void longh(unsigned k) {
  {
    cest::vector<T> a; Seq ma;
    for (unsigned i = 0; i < k; ++i) {
      switch (pick("op", 5)) {
      case 0: { int x = symInt("x"); a.push_back(T(x)); ma.push_back(x); break; }
      case 1: { assume(ma.n > 0); a.pop_back(); ma.pop_back(); break; }
      case 2: { assume(ma.n > 0); unsigned j = pick("j", ma.n); a.erase(a.begin() + j, a.begin() + j + 1); ma.erase(j, j + 1); break; }
      case 3: { unsigned n = ma.n + 2; a.resize(n); ma.resize(n); break; }
      case 4: { cest::vector<T> w(a); a.push_back(T(7)); same(w, ma); a = w; break; }
      }
      same(a, ma);
    }
    rev(a, ma);
  }
  CHECK(gLive == 0);
  DONE();
}
SX_HARNESS(v01_long) { longh<int>(K); }
SX_HARNESS(v02_long) { longh<Tracked>(K); }
// growth to larger sizes, then one operation; contents checked at an arbitrary index
template <class T> static void grow() {
  {
    cest::vector<T> a, b; Seq ma, mb;
    unsigned n = pick("n", GROW);
    if (pick("resv", 2)) a.reserve(n / 2);
    fill(a, ma, n); fill(b, mb, pick("nb", 3));
    CHECK(a.capacity() >= n);
    step<T, true>(a, ma, b, mb);
    CHECK((int)a.size() == ma.n); CHECK(a.capacity() >= a.size());
    if (ma.n) { unsigned i = symUInt("index"); assume(i < (unsigned)ma.n); CHECKM(val(a[i]) == ma.a[i], "element at an arbitrary index"); }
    same(b, mb);
  }
  CHECK(gLive == 0);
  DONE();
}
SX_HARNESS(v01_grow) { grow<int>(); }
SX_HARNESS(v02_grow) { grow<Tracked>(); }
// every size up to a larger bound, reached in several ways; copies, growth and shrinking checked at an arbitrary index
template <class T> static void sizes() {
  {
    unsigned n = split("n", GROW); cest::vector<T> a; Seq m;
    switch (split("how", 4)) {
    case 0: fill(a, m, n); break;
    case 1: a.reserve(n); fill(a, m, n); break;
    case 2: { cest::vector<T> w(n); a = w; for (unsigned i = 0; i < n; ++i) { int x = symInt("x"); a[i] = T(x); m.push_back(x); } break; }
    case 3: a.resize(n); for (unsigned i = 0; i < n; ++i) { int x = symInt("x"); a.data()[i] = T(x); m.push_back(x); } break;
    }
    cest::vector<T> b(a), c, d(static_cast<cest::vector<T> &&>(b)); c = a; c.push_back(T(5)); CHECK(c.size() == n + 1); c.pop_back();
    unsigned keep = n / 2; a.resize(keep); a.push_back(T(9)); CHECK(a.size() == keep + 1); CHECK(val(a.back()) == 9);
    unsigned i = symUInt("index"); if (i < n) { CHECKM(val(c[i]) == m.a[i], "element at an arbitrary index of a copy"); CHECK(val(d[i]) == m.a[i]); if (i < keep) CHECKM(val(a[i]) == m.a[i], "element at an arbitrary index"); }
    CHECK((int)c.size() == m.n); CHECK(c.capacity() >= c.size()); CHECK(a.capacity() >= a.size()); obs(c.size());
  }
  CHECK(gLive == 0); DONE();
}
SX_HARNESS(v01_sizes) { sizes<int>(); }
SX_HARNESS(v02_sizes) { sizes<Tracked>(); }
SX_HARNESS(v01_init) {
  int x = symInt("x"), y = symInt("y"), z = symInt("z");
  cest::vector<int> v{x, y, z}; Seq m; m.push_back(x); m.push_back(y); m.push_back(z); same(v, m); rev(v, m);
  cest::vector<int> e(std::initializer_list<int>{}); Seq me; same(e, me); rev(e, me);
  cest::vector<int> w{y}; Seq mw; mw.push_back(y); same(w, mw);
  cest::vector<int> c(5ul); Seq mc; mc.resize(5); same(c, mc);
  CHECK((v == cest::vector<int>{x, y, z})); CHECK((v == cest::vector<int>{x, x, z}) == (x == y)); CHECK(!(v == w)); CHECK((v != cest::vector<int>{x, y, x}) == (z != x));
  v.front() = z; v.back() = x; v[1] = z; m.a[0] = z; m.a[2] = x; m.a[1] = z; same(v, m); *v.data() = y; m.a[0] = y; same(v, m);
  obs((unsigned)v[2]); DONE();
}
SX_HARNESS(v02_init) {
  { Tracked t(symInt("x")), u(symInt("y")); cest::vector<Tracked> v{t, u, t}; CHECK(v[0] == t); CHECK(v[1] == u); CHECK(v[2] == t); cest::vector<Tracked> w(3ul); w = v; CHECK(w == v); cest::vector<Tracked> z(static_cast<cest::vector<Tracked> &&>(v)); CHECK(z == w); cest::vector<Tracked> e; z = e; CHECK(z.empty()); z = w; z.clear(); z.push_back(u); CHECK(z.back() == u); z.resize(0); }
  CHECK(gLive == 0); DONE();
}
// V03
template <class V> static void atOn(V &v, const Seq &m, unsigned n) {
  uint64_t i = symU64("index"); bool threw = false; int got = 0;
  try { got = val(v.at(i)); } catch (const std::out_of_range &) { threw = true; }
  CHECKM(threw == (i >= n), "at throws std::out_of_range exactly for indices not below size()");
  if (!threw) { CHECKM(&v.at(i) == &v[0] + i, "at refers to element i"); CHECKM(got == m.a[i], "at yields element i"); }
  obs(threw); obs((unsigned)got);
}
SX_HARNESS(v03_at) {
  unsigned n = pick("n", GROW); cest::vector<int> v; Seq m; fill(v, m, n);
  if (pick("shrink", 2)) { unsigned k = pick("k", n + 1); v.resize(k); m.resize(k); n = k; }
  if (pick("const", 2)) { const cest::vector<int> &c = v; atOn(c, m, n); } else atOn(v, m, n);
  same(v, m); DONE();
}
SX_HARNESS(v03_tracked) {
  { unsigned n = pick("n", 4); cest::vector<Tracked> v; Seq m; for (unsigned i = 0; i < n; ++i) { v.push_back(Tracked(10 + i)); m.push_back(10 + i); }
    uint64_t i = symU64("index"); bool threw = false; int got = -1; try { got = v.at(i).get(); } catch (std::out_of_range &) { threw = true; }
    CHECK(threw == (i >= n)); CHECK(threw || got == (int)(10 + i)); same(v, m); }
  CHECK(gLive == 0); DONE();
}
// sizes around powers of two; every element is a different symbolic value
#include "huge.h"
SX_HARNESS(v01_huge) {
  const unsigned n = hugeN(); const int s = symInt("salt"); cest::vector<int> a;
  switch (split("how", 3)) {
  case 0: for (unsigned i = 0; i < n; ++i) a.push_back((int)i ^ s); break;
  case 1: a.resize(n); CHECK(a.capacity() >= n); for (unsigned i = 0; i < n; ++i) a[i] = (int)i ^ s; break;
  case 2: { cest::vector<int> w(n); a.reserve(n); CHECK(a.capacity() >= n); a = w; for (unsigned i = 0; i < n; ++i) a.data()[i] = (int)i ^ s; break; }
  }
  auto holds = [&](const cest::vector<int> &v, unsigned k) {
    bool ok = v.size() == k; ok = both(ok, v.capacity() >= k); ok = both(ok, v.end() - v.begin() == (long)k); unsigned i = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++i) ok = both(ok, *it == ((int)i ^ s));
    for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; ok = both(ok, *it == ((int)i ^ s)); }
    return both(ok, i == 0);
  };
  CHECKM(holds(a, n), "the elements are those pushed");
  cest::vector<int> b(a), c; CHECKM(holds(b, n), "a copy has the elements of its source"); CHECK(a == b); c = b; CHECKM(holds(c, n), "assignment copies all elements");
  b[n - 1] = ~b[n - 1]; CHECK(!(a == b)); CHECK(a != b); b.pop_back(); CHECKM(holds(b, n - 1), "pop_back removes the last element"); CHECK(!(a == b));
  b.push_back((int)(n - 1) ^ s); b.push_back((int)n ^ s); CHECKM(holds(b, n + 1), "push_back appends");
  auto r = c.erase(c.begin() + 60, c.end() - 1); CHECK(r == c.begin() + 60); CHECK(c.size() == 61); CHECK(c[60] == ((int)(n - 1) ^ s)); c.pop_back(); CHECKM(holds(c, 60), "erase removes a long range");
  CHECK(a.at(n - 1) == ((int)(n - 1) ^ s)); bool threw = false; try { a.at(n); } catch (const std::out_of_range &) { threw = true; } CHECK(threw);
  c = a; CHECKM(holds(c, n), "assignment grows"); a.resize(61); a.resize(60); CHECKM(holds(a, 60), "resize shrinks"); a.resize(n); CHECK(a.size() == n); CHECK(a[n - 1] == 0); CHECK(a[60] == 0); a.clear(); CHECK(a.empty()); a.swap(c); CHECKM(holds(a, n), "swap"); obs((unsigned)a[n / 2]); DONE();
}
SX_HARNESS(v02_huge) {
  {
    const unsigned n = hugeN(6); cest::vector<Tracked> a; switch (split("how", 3)) { case 0: for (unsigned i = 0; i < n; ++i) a.push_back(Tracked((int)i)); break; case 1: a.resize(n); for (unsigned i = 0; i < n; ++i) a[i] = Tracked((int)i); break; case 2: a.reserve(n); for (unsigned i = 0; i < n; ++i) { const Tracked t((int)i); a.push_back(t); } break; }
    CHECK(gLive == (long)n); cest::vector<Tracked> b(a), c; c = b; CHECK(gLive == 3 * (long)n); a.erase(a.begin() + 7, a.end() - 5); CHECK(gLive == 2 * (long)n + 12); c.push_back(c[0]); c.push_back(c.back()); c = a; CHECK(gLive == (long)n + 24); c = b; a.resize(3); a.resize(n); b.clear(); CHECK(gLive == 2 * (long)n); b.swap(a); CHECK(c[n - 1].get() == (int)n - 1); CHECK(b[n - 1].get() == 0); CHECK(b[2].get() == 2); obs(n);
  }
  CHECKM(gLive == 0, "every constructed element is destroyed exactly once"); DONE();
}
