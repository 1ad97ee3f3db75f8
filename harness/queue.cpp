#include "seq.h"
#include "cest/queue.hpp"
#include "cest/list.hpp"
#include "bounds.h"
#ifndef K
#define K 5
#endif
#ifndef W
#define W 6
#endif
// elements are held in a[h..t)
struct Fifo { int a[2600]; int h = 0, t = 0; Fifo() {} Fifo(const Fifo &o) { h = o.h; t = o.t; for (int i = h; i < t; ++i) a[i] = o.a[i]; } };
template <class Q> static void same(const Q &q, const Fifo &m) { CHECK((int)q.size() == m.t - m.h); CHECK(q.empty() == (m.t == m.h)); if (m.t > m.h) { CHECKM(val(q.front()) == m.a[m.h], "front() is the oldest element"); CHECKM(val(q.back()) == m.a[m.t - 1], "back() is the newest element"); Q &w = const_cast<Q &>(q); CHECK(&w.front() == &q.front()); CHECK(&w.back() == &q.back()); } }
template <class Q> static void drain(Q &q, Fifo &m) { while (m.t > m.h) { CHECKM(val(q.front()) == m.a[m.h], "elements leave in arrival order"); q.pop(); ++m.h; same(q, m); } CHECK(q.empty()); }
template <class T, class Q> static void hist() {
  {
    Q q; Fifo m; CHECK(q.empty());
    for (unsigned i = 0; i < K; ++i) {
      switch (pick("op", 5)) {
      case 0: { int x = symInt("x"); const T t(x); q.push(t); m.a[m.t++] = x; break; }
      case 1: { int x = symInt("x"); q.push(T(x)); m.a[m.t++] = x; break; }
      case 2: assume(m.t > m.h); q.pop(); ++m.h; break;
      case 3: { assume(m.t > m.h); int x = symInt("x"); q.front() = T(x); m.a[m.h] = x; x = symInt("y"); q.back() = T(x); m.a[m.t - 1] = x; break; }
      case 4: { Q c(q); Fifo mc(m); same(c, mc); c.push(T(5)); mc.a[mc.t++] = 5; q.push(T(6)); m.a[m.t++] = 6; drain(c, mc); same(q, m); Q d(q); q = d; break; }
      }
      same(q, m);
    }
    obs(q.size()); drain(q, m);
  }
  CHECK(gLive == 0); DONE();
}
SX_HARNESS(q01_hist) { if (pick("tracked", 2)) hist<Tracked, cest::queue<Tracked>>(); else hist<int, cest::queue<int>>(); }
SX_HARNESS(q01_list) { if (pick("tracked", 2)) hist<Tracked, cest::queue<Tracked, cest::list<Tracked>>>(); else hist<int, cest::queue<int, cest::list<int>>>(); }
SX_HARNESS(q01_edge) { // long queues: elements cross storage chunks
  cest::queue<int> q; Fifo m; unsigned n = split("base", 3); n = (n == 0 ? 505 : n == 1 ? 1020 : 1530); unsigned more = choose("n", 2 * W); unsigned lag = split("lag", 4); lag = lag == 0 ? 0 : lag == 1 ? 1 : lag == 2 ? 300 : 513;
  for (unsigned i = 0; i < n || i - n < more; ++i) { int x = i % 64 == 63 ? symInt("x") : (int)i; q.push(x); m.a[m.t++] = x; if (lag && (unsigned)(m.t - m.h) > lag) { CHECKM(q.front() == m.a[m.h], "elements leave in arrival order"); q.pop(); ++m.h; } CHECK((int)q.size() == m.t - m.h); CHECK(q.back() == x); }
  cest::queue<int> c(q); Fifo mc(m); drain(c, mc); drain(q, m); q.push(4); CHECK(q.front() == 4); CHECK(q.back() == 4); CHECK(q.size() == 1); obs(n); DONE();
}
SX_HARNESS(q01_copy) { // construction from a container
  { cest::deque<int> d; Fifo m; unsigned n = pick("n", K + 1); for (unsigned i = 0; i < n; ++i) { int x = symInt("x"); d.push_back(x); m.a[m.t++] = x; } cest::queue<int> q(d); same(q, m); d.clear(); same(q, m); cest::deque<int> d2; d2.push_back(1); cest::queue<int> r(static_cast<cest::deque<int> &&>(d2)); CHECK(r.size() == 1); r = q; same(r, m); r.push(9); same(q, m); const cest::queue<int> &cr = r; CHECK(cr.back() == 9); drain(q, m); CHECK(r.size() == n + 1);
    cest::list<int> l; l.push_back(3); l.push_back(4); cest::queue<int, cest::list<int>> ql(l); CHECK(ql.front() == 3); CHECK(ql.back() == 4); ql.pop(); CHECK(ql.front() == 4); CHECK(l.size() == 2); }
  DONE();
}
#include "huge.h"
SX_HARNESS(q01_huge) { // lengths around powers of two
  const unsigned n = hugeN(); const int s = symInt("salt");
  auto run = [&](auto &q) { for (unsigned i = 0; i < n; ++i) { q.push((int)i ^ s); } CHECK(q.size() == n); CHECK(!q.empty()); auto c(q); bool ok = true; for (unsigned i = 0; i < n; ++i) { ok = both(ok, q.front() == ((int)i ^ s)); ok = both(ok, q.back() == ((int)(n - 1) ^ s)); ok = both(ok, q.size() == n - i); q.pop(); } CHECKM(ok, "elements leave in arrival order"); CHECK(q.empty()); CHECK(c.size() == n); CHECK(c.front() == s); };
  if (split("list", 2)) { cest::queue<int, cest::list<int>> q; run(q); } else { cest::queue<int> q; run(q); } obs(n); DONE();
}
