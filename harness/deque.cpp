#include "sx.h"
#include "cest/deque.hpp"
#include "cest/algorithm.hpp"
#include "cest/numeric.hpp"
#include <iterator>
#include "bounds.h"
#include "walk.h"
#ifndef K
#define K 2
#endif
#ifndef W
#define W 2
#endif
static inline bool both(bool a, bool b) { return (unsigned)a & (unsigned)b; }
// reference model: a window of a large array
struct DSeq {
  int a[12000]; int lo = 6000, hi = 6000;
  DSeq() {}
  DSeq(const DSeq &o) { copy(o); }
  DSeq &operator=(const DSeq &o) { copy(o); return *this; }
  void copy(const DSeq &o) { lo = o.lo; hi = o.hi; for (int i = lo; i < hi; ++i) a[i] = o.a[i]; }
  int n() const { return hi - lo; }
  int at(int i) const { return a[lo + i]; }
};
template <class T> using Q = cest::deque<T>;
template <class T> static void ends(const Q<T> &q, const DSeq &m) {
  CHECK((int)q.size() == m.n()); CHECK(q.empty() == (m.n() == 0));
  if (m.n()) { CHECKM(val(q.front()) == m.at(0), "front() is the first element"); CHECKM(val(q.back()) == m.at(m.n() - 1), "back() is the last element"); }
}
template <class T> static void same(Q<T> &q, const DSeq &m) {
  ends(q, m); const Q<T> &c = q; int n = m.n();
  for (int i = 0; i < n; ++i) { CHECKM(val(q[i]) == m.at(i), "index i is element i"); if (i < 3 || i + 3 >= n) { CHECK(&c[i] == &q[i]); } }
  if (n) { CHECK(&q.front() == &q[0]); CHECK(&q.back() == &q[n - 1]); }
}
template <class T> static void iterate(Q<T> &q, const DSeq &m) {
  int n = m.n(), i = 0; const Q<T> &c = q;
  for (auto it = q.begin(); !(it == q.end()); ++it, ++i) { CHECKM(i < n, "iteration ends"); CHECKM(val(*it) == m.at(i), "iteration visits the elements in index order"); }
  CHECK(i == n); i = 0;
  for (auto it = c.begin(); it != c.end(); i++) { CHECKM(i < n, "const iteration ends"); auto p = it++; CHECKM(val(*p) == m.at(i), "post-increment returns the old position"); CHECK(p.operator->() == &*p); }
  CHECK(i == n);
  for (auto it = q.end(); it != q.begin();) { --it; --i; CHECKM(i >= 0, "backward stepping ends"); CHECKM(val(*it) == m.at(i), "backward stepping visits the elements in reverse"); }
  CHECK(i == 0); i = n;
  for (auto it = c.cend(); it != c.cbegin();) { auto p = it--; --i; CHECKM(i >= 0, "backward stepping ends"); CHECKM(val(*it) == m.at(i), "const backward stepping visits the elements in reverse"); auto nx = it; ++nx; CHECK(nx == p); }
  CHECK(i == 0); CHECK(q.end() - q.begin() == n); CHECK(c.end() - c.begin() == n); CHECK(c.cend() - c.cbegin() == n);
}
template <class T> static void pb(Q<T> &q, DSeq &m, int x) { const T t(x); q.push_back(t); m.a[m.hi++] = x; }
template <class T> static void pf(Q<T> &q, DSeq &m, int x) { const T t(x); q.push_front(t); m.a[--m.lo] = x; }
template <class T> static void ob(Q<T> &q, DSeq &m) { q.pop_back(); if (m.n()) --m.hi; }
template <class T> static void of(Q<T> &q, DSeq &m) { q.pop_front(); if (m.n()) ++m.lo; }
template <class T> static void bulk(Q<T> &q, DSeq &m, unsigned kind, unsigned n) {
  for (unsigned i = 0; i < n; ++i) switch (kind) {
    case 0: pb(q, m, i == 0 || i + 1 == n ? symInt("x") : 7000 + (int)i); break;
    case 1: pf(q, m, i == 0 || i + 1 == n ? symInt("x") : 9000 + (int)i); break;
    case 2: ob(q, m); break;
    default: of(q, m);
  }
}
// base operations and then a symbolic number of further ones
template <class T> static unsigned more(Q<T> &q, DSeq &m, unsigned kind, unsigned base, const char *name, unsigned w) { bulk(q, m, kind, base); unsigned n = choose(name, w), k = 0; for (; k < n; ++k) bulk(q, m, kind, 1); return base + k; }
// states at the edges of chunks: the first chunk is entered in its middle, so its edges lie 512 pushes away and the next ones 1024 further
template <class T> static void prefix(Q<T> &q, DSeq &m) {
  switch (pick("shape", 6)) {
  case 0: more(q, m, 0, 511 - W / 2, "n", W); break;
  case 1: more(q, m, 1, 511 - W / 2, "n", W); break;
  case 2: bulk(q, m, 0, 512); more(q, m, 1, 512 - W / 2, "n", W); break;
  case 3: more(q, m, 0, 512 - W / 2, "n", W); more(q, m, 3, m.n() - 1, "gone", 2); break;
  case 4: more(q, m, 1, 512 - W / 2, "n", W); more(q, m, 2, m.n() - 1, "gone", 2); break;
  case 5: more(q, m, 0, 1536 - W / 2, "n", W); more(q, m, 3, 510, "gone", 4); break;
  }
}
template <class T> static void op(Q<T> &q, DSeq &m) {
  switch (pick("op", 11)) {
  case 0: pb(q, m, symInt("x")); break;
  case 1: pf(q, m, symInt("x")); break;
  case 2: ob(q, m); break;
  case 3: of(q, m); break;
  case 4: { int x = symInt("x"); q.push_back(T(x)); m.a[m.hi++] = x; break; }
  case 5: { int x = symInt("x"); q.push_front(T(x)); m.a[--m.lo] = x; break; }
  case 6: { q.clear(); m.lo = m.hi = 6000; break; }
  case 7: { Q<T> w(q); same(w, m); Q<T> &r = (q = w); CHECK(&r == &q); w.push_back(T(1)); w.pop_front(); break; }
  case 8: { Q<T> &r = q; q = r; break; }
  case 9: { assume(m.n() > 0); int x = m.at(0); q.push_back(q.front()); m.a[m.hi++] = x; break; }
  case 10: { assume(m.n() > 0); int x = m.at(m.n() - 1); q.push_front(q.back()); m.a[--m.lo] = x; x = m.at(0); q.push_back(q[0]); m.a[m.hi++] = x; break; }
  }
}
// any index, left to the solver
template <class T> static void index(Q<T> &q, const DSeq &m) { unsigned i = choose("i", 24); assume((int)i < m.n()); CHECKM(val(q[i]) == m.at((int)i), "index i is element i"); const Q<T> &c = q; CHECK(&c[i] == &q[i]); }
template <class T> static void small() {
  { Q<T> q; DSeq m; for (unsigned i = 0; i < K; ++i) { op(q, m); same(q, m); } iterate(q, m); index(q, m); obs(q.size()); }
  CHECKM(gLive == 0, "every element is destroyed exactly once"); DONE();
}
template <class T> static void edge() {
  { Q<T> q; DSeq m; prefix(q, m); ends(q, m); for (unsigned i = 0; i < K; ++i) { op(q, m); ends(q, m); } same(q, m); obs(q.size()); }
  CHECKM(gLive == 0, "every element is destroyed exactly once"); DONE();
}
static const unsigned amounts[] = {1, 512, 1024, 2, 511, 513, 1023, 1025};
template <class T, bool IT> static void bulks(unsigned nk) {
  { Q<T> q; DSeq m; unsigned start = split("start", 3); if (start) bulk(q, m, start - 1, 513); for (unsigned i = 0; i < K; ++i) { unsigned k = split("kind", 5), n = amounts[split("amount", nk)]; if (k == 4) { q.clear(); m.lo = m.hi = 6000; bulk(q, m, 0, n); } else bulk(q, m, k, n); ends(q, m); } if (IT) iterate(q, m); else same(q, m); pb(q, m, 3); pf(q, m, 4); ends(q, m); Q<T> w; w.push_back(T(8)); w = q; ends(w, m); obs(q.size()); }
  CHECKM(gLive == 0, "every element is destroyed exactly once"); DONE();
}
SX_HARNESS(d01_small) { small<int>(); }
SX_HARNESS(d03_small) { small<Tracked>(); }
SX_HARNESS(d01_edge) { edge<int>(); }
SX_HARNESS(d03_edge) { edge<Tracked>(); }
SX_HARNESS(d01_bulk) { bulks<int, false>(K > 2 ? 4 : 8); }
SX_HARNESS(d03_bulk) { bulks<Tracked, false>(K > 2 ? 3 : 3); }
SX_HARNESS(d02_ops) { bulks<int, true>(K > 2 ? 4 : 8); }
SX_HARNESS(d01_init) {
  { int x = symInt("x"), y = symInt("y"), z = symInt("z"); Q<int> q{x, y, z}; CHECK(q.size() == 3); CHECK(q[0] == x); CHECK(q[1] == y); CHECK(q[2] == z); q[1] = z; q.front() = y; q.back() = x; const Q<int> &c = q; CHECK(c[0] == y); CHECK(c.front() == y); CHECK(c[1] == z); CHECK(c.back() == x); Q<int> e(std::initializer_list<int>{}); CHECK(e.empty()); e.pop_back(); e.pop_front(); CHECK(e.size() == 0); e.push_front(z); CHECK(e.back() == z); CHECK(e.front() == z); e = q; CHECK(e.size() == 3); CHECK(e[1] == z); q.clear(); CHECK(q.empty()); CHECK(e[0] == y); obs((unsigned)e[2]); }
  DONE();
}
// every pair of positions near the edges: difference, stepping, dereference
SX_HARNESS(d02_iter) {
  Q<int> q; DSeq m; unsigned f = more(q, m, 1, choose("front", 2) ? 509 : 0, "f", W), b = more(q, m, 0, choose("back", 2) ? 509 : 0, "b", W); (void)b;
  int n = m.n(); iterate(q, m); if (!n) { CHECK(q.begin() == q.end()); DONE(); return; }
  auto p = q.begin(); int i = 0; if (choose("i", 2)) for (; i < n - 2; ++i) ++p; for (int k = 0, d = (int)choose("di", 3); k < d && i < n; ++k, ++i) ++p;
  auto r = q.begin(); int j = 0, mid = choose("j", 2) ? (int)f - 1 : n / 2; for (; j < mid && j < n; ++j) r++; for (int k = 0, d = (int)choose("dj", 3); k < d && j < n; ++k, ++j) r++;
  CHECKM(p - r == i - j, "the difference of iterators is the difference of positions"); CHECK(r - p == j - i); CHECK((p == r) == (i == j)); CHECK(q.end() - p == n - i); CHECK(p - q.begin() == i);
  typename Q<int>::const_iterator cp = p, cr = r; CHECK(cp - cr == i - j); CHECK((cp == cr) == (i == j)); CHECK(q.cend() - cp == n - i);
  if (i < n) { CHECK(&*p == &q[i]); *p = 77; CHECK(q[i] == 77); } auto s = q.end(); for (int k = n; k > i; --k) s--; CHECK(s == p); obs((unsigned)(i * 4096 + j)); DONE();
}
SX_HARNESS(d02_small) {
  Q<int> q; DSeq m; unsigned f = split("f", W), b = split("b", W); bulk(q, m, 1, f); bulk(q, m, 0, b); bulk(q, m, 2 + split("side", 2), split("gone", W)); iterate(q, m);
  int n = m.n(), i = (int)split("i", 2 * W), j = (int)split("j", 2 * W); assume(i <= n); assume(j <= n); auto p = q.begin(); for (int k = 0; k < i; ++k) p++; auto r = q.end(); for (int k = n; k > j; --k) r--; CHECK(p - r == i - j); CHECK((p == r) == (i == j)); if (i < n) CHECK(&*p == &q[i]); DONE();
}
SX_HARNESS(d02_algo) {
  Q<int> q; DSeq m; switch (split("shape", 4)) { case 0: for (unsigned i = 0, n = 3 * W; i < n; ++i) pb(q, m, symInt("x")); break; case 1: bulk(q, m, 0, 510 + split("n", W)); break; case 2: bulk(q, m, 1, 510 + split("n", W)); break; case 3: bulk(q, m, 0, 508); bulk(q, m, 3, 506); for (unsigned i = 0, n = 3 + split("n", W); i < n; ++i) pb(q, m, symInt("x")); break; }
  int n = m.n(); const Q<int> &c = q; unsigned s1 = 0, s2 = 0; for (int i = 0; i < n; ++i) s2 += (unsigned)m.at(i); for (int x : q) s1 += (unsigned)x; CHECK(s1 == s2); unsigned acc = cest::accumulate(c.begin(), c.end(), 0u, [](unsigned a, int b) { return a + (unsigned)b; }); CHECK(acc == s2);
  CHECK(std::distance(q.begin(), q.end()) == n); int cnt = 0; for (int i = 0; i < n; ++i) cnt += m.at(i) == 7001; CHECK(cest::count(q.begin(), q.end(), 7001) == cnt);
  int arr[600]; int *e = cest::copy(c.begin(), c.end(), arr); CHECK(e - arr == n); bool ok = true; for (int i = 0; i < n; ++i) ok = both(ok, arr[i] == m.at(i)); CHECK(ok); CHECK(cest::equal(c.begin(), c.end(), arr)); Q<int> t; cest::copy(arr, arr + n, std::back_inserter(t)); CHECK(t.size() == (unsigned)n); CHECK(cest::equal(q.begin(), q.end(), t.begin())); Q<int> u; cest::copy(arr, arr + n, std::front_inserter(u)); CHECK(u.size() == (unsigned)n); if (n) CHECK(u.front() == arr[n - 1]); obs(n); DONE();
}

// histories of iterator operations next to the edge of a chunk
SX_HARNESS(d02_walk) {
  Q<int> q; DSeq m; unsigned side = pick("side", 3); if (side == 1) bulk(q, m, 1, 511 + pick("edge", 4)); else if (side == 2) bulk(q, m, 0, 510 + pick("edge", 4)); else bulk(q, m, 0, pick("size", 4)); const Q<int> &c = q; auto at = [&q](int i) { return &q[(unsigned)i]; };
  switch (pick("iter", 4)) {
  case 0: walk<Q<int>::iterator, true, true>(q.begin(), q.end(), m.n(), at, side == 2, K); break;
  case 1: walk<Q<int>::const_iterator, true, true>(c.begin(), c.end(), m.n(), at, side == 2, K); break;
  case 2: { int n = m.n(); walk<Q<int>::reverse_iterator, true, false>(Q<int>::reverse_iterator(q.end()), Q<int>::reverse_iterator(q.begin()), n, [&q, n](int i) { return &q[(unsigned)(n - 1 - i)]; }, side == 1, K > 3 ? 3 : K); break; }
  case 3: { int n = m.n(); walk<Q<int>::const_reverse_iterator, true, false>(Q<int>::const_reverse_iterator(q.cend()), Q<int>::const_reverse_iterator(q.cbegin()), n, [&q, n](int i) { return &q[(unsigned)(n - 1 - i)]; }, side == 1, K > 3 ? 3 : K); break; }
  }
  DONE();
}
// lengths around powers of two; every element is a different symbolic value
#include "huge.h"
SX_HARNESS(d01_huge) {
  const unsigned n = hugeN(); const int s = symInt("salt"); cest::deque<int> a; unsigned f = split("front", 3); f = f == 0 ? 0 : f == 1 ? n / 3 : n;
  for (unsigned i = f; i < n; ++i) a.push_back((int)i ^ s); for (unsigned i = f; i > 0; --i) a.push_front((int)(i - 1) ^ s);
  auto holds = [&](const cest::deque<int> &d, unsigned lo, unsigned hi) { bool ok = d.size() == hi - lo; ok = both(ok, d.empty() == (hi == lo)); for (unsigned i = lo; i < hi; ++i) ok = both(ok, d[i - lo] == ((int)i ^ s)); if (hi > lo) { ok = both(ok, d.front() == ((int)lo ^ s)); ok = both(ok, d.back() == ((int)(hi - 1) ^ s)); } return ok; };
  CHECKM(holds(a, 0, n), "indexing yields the elements"); cest::deque<int> b(a), c; CHECKM(holds(b, 0, n), "a copy has the elements of its source"); c = b; CHECKM(holds(c, 0, n), "assignment copies all elements");
  unsigned i = 0; bool ok = true; for (auto it = a.begin(); it != a.end() && i <= n; ++it, ++i) ok = both(ok, *it == ((int)i ^ s)); CHECKM(ok && i == n, "iteration yields the elements"); CHECK(a.end() - a.begin() == (long)n);
  for (i = 0; i < n / 2; ++i) b.pop_front(); CHECKM(holds(b, n / 2, n), "popping the front half"); for (; i < n - 3; ++i) b.pop_back(); CHECKM(holds(b, n / 2, n / 2 + 3), "popping at the back"); for (i = n / 2 + 3; i <= n; ++i) b.push_back((int)i ^ s); CHECKM(holds(b, n / 2, n + 1), "pushing again"); b.clear(); CHECK(b.empty()); b = a; CHECKM(holds(b, 0, n), "assignment to an emptied deque"); obs(a.size()); DONE();
}
SX_HARNESS(d02_huge) {
  const unsigned n = hugeN(); cest::deque<int> a; unsigned f = split("front", 3); f = f == 0 ? 0 : f == 1 ? n / 3 : n; for (unsigned i = f; i < n; ++i) a.push_back((int)i); for (unsigned i = f; i > 0; --i) a.push_front((int)(i - 1));
  const cest::deque<int> &c = a; CHECK(a.end() - a.begin() == (long)n); CHECK(c.end() - c.begin() == (long)n); CHECK(a.cend() - a.cbegin() == (long)n); unsigned i = 0; bool ok = true; for (auto it = c.begin(); it != c.end() && i <= n; it++, ++i) { ok = both(ok, *it == (int)i); ok = both(ok, c.end() - it == (long)(n - i)); } CHECKM(ok && i == n, "iteration visits every element, distances are exact"); auto it = a.end(); while (i > 0) { --it; --i; ok = both(ok, *it == (int)i); ok = both(ok, it - a.begin() == (long)i); } CHECKM(ok && it == a.begin(), "stepping backwards visits every element"); int x = symInt("x"); *it = x; CHECK(a[0] == x); obs(n); DONE();
}
SX_HARNESS(d03_huge) {
  {
    const unsigned n = hugeN(5); cest::deque<Tracked> a; unsigned f = split("front", 3); f = f == 0 ? 0 : f == 1 ? n / 2 : n; for (unsigned i = f; i < n; ++i) a.push_back(Tracked((int)i)); for (unsigned i = f; i > 0; --i) a.push_front(Tracked((int)i - 1)); CHECK(gLive == (long)n); cest::deque<Tracked> b(a), c; c = b; CHECK(gLive == 3 * (long)n);
    for (unsigned i = 0; i < n / 2; ++i) { a.pop_front(); b.pop_back(); } CHECK(gLive == 3 * (long)n - 2 * (long)(n / 2)); CHECK(a.back().get() == (int)n - 1); a = b; c = a; b.clear(); CHECK(gLive == 2 * (long)(n - n / 2)); a.push_front(Tracked(4)); b = a; obs(n);
  }
  CHECKM(gLive == 0, "every constructed element is destroyed exactly once"); DONE();
}
