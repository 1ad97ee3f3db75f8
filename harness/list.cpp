#include "seq.h"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "bounds.h"
#include "walk.h"
#ifndef K
#define K 2
#endif
#ifndef N0
#define N0 3
#endif
#ifndef GROW
#define GROW 12
#endif
template <class L> static void same(const L &l, const Seq &m) {
  CHECK((int)l.size() == m.n); CHECK(l.empty() == (m.n == 0));
  int i = 0; for (auto it = l.begin(); !(it == l.end()); ++it, ++i) { CHECKM(i < m.n, "forward traversal ends"); CHECKM(val(*it) == m.a[i], "forward traversal yields the denoted sequence"); }
  CHECK(i == m.n);
  for (auto it = l.cend(); !(it == l.cbegin());) { --it; --i; CHECKM(i >= 0, "backward traversal ends"); CHECKM(val(*it) == m.a[i], "backward traversal yields the denoted sequence reversed"); }
  CHECK(i == 0);
  if (m.n) { CHECK(val(l.front()) == m.a[0]); CHECK(val(l.back()) == m.a[m.n - 1]); }
}
template <class L> static void sameMut(L &l, const Seq &m) {
  int i = 0; for (auto it = l.begin(); it != l.end(); it++, ++i) { CHECKM(i < m.n, "traversal ends"); CHECKM(val(*it) == m.a[i], "mutable forward traversal"); CHECK(it.operator->() == &*it); }
  CHECK(i == m.n);
  for (auto it = l.end(); it != l.begin();) { auto old = it--; CHECK(old != it); auto nx = it; ++nx; CHECK(nx == old); --i; CHECKM(val(*it) == m.a[i], "mutable backward traversal"); }
  CHECK(i == 0);
  if (m.n) { auto it = l.begin(); auto p = it++; CHECKM(val(*p) == m.a[0], "post-increment returns the old position"); CHECK(val(l.front()) == m.a[0]); CHECK(val(l.back()) == m.a[m.n - 1]); const L &c = l; auto ci = c.begin(); auto cp = ci++; CHECK(val(*cp) == m.a[0]); auto cq = ci--; CHECK(ci == cp); CHECK(!(cq == cp)); }
}
template <class It> static It adv(It it, unsigned i) { while (i--) ++it; return it; }
template <class T> using L = cest::list<T>;
template <class T> static void fill(L<T> &l, Seq &m, unsigned n) { for (unsigned i = 0; i < n; ++i) { int x = symInt("x"); l.push_back(T(x)); m.push_back(x); } }
template <class T, bool ALIAS> static void step(L<T> &a, Seq &ma, L<T> &b, Seq &mb) {
  switch (pick("op", ALIAS ? 22 : 19)) {
  case 0: { int x = symInt("x"); const T t(x); a.push_back(t); ma.push_back(x); break; }
  case 1: { int x = symInt("x"); a.push_back(T(x)); ma.push_back(x); break; }
  case 2: { int x = symInt("x"); const T t(x); a.push_front(t); ma.push_front(x); break; }
  case 3: { int x = symInt("x"); a.push_front(T(x)); ma.push_front(x); break; }
  case 4: { assume(ma.n > 0); a.pop_back(); ma.pop_back(); break; }
  case 5: { assume(ma.n > 0); a.pop_front(); ma.pop_front(); break; }
  case 6: { unsigned i = pick("i", ma.n + 1); int x = symInt("x"); const T t(x); auto r = a.insert(adv(a.cbegin(), i), t); CHECKM(r == adv(a.begin(), i), "insert returns the new element's position"); CHECK(val(*r) == x); ma.insert(i, x); break; }
  case 7: { unsigned i = pick("i", ma.n + 1); int x = symInt("x"); auto r = a.insert(adv(a.cbegin(), i), T(x)); CHECKM(r == adv(a.begin(), i), "insert returns the new element's position"); CHECK(val(*r) == x); ma.insert(i, x); break; }
  case 8: { unsigned i = pick("i", ma.n + 1); int x = symInt("x"); auto r = a.emplace(adv(a.cbegin(), i), x); CHECKM(r == adv(a.begin(), i), "emplace returns the new element's position"); CHECK(val(*r) == x); ma.insert(i, x); break; }
  case 9: { assume(ma.n > 0); unsigned i = pick("i", ma.n); auto nx = adv(a.begin(), i + 1); auto r = a.erase(adv(a.cbegin(), i)); CHECKM(r == nx, "erase returns the following position"); ma.erase(i, i + 1); break; }
  case 10: { int x = symInt("x"); auto &r = a.emplace_back(x); CHECK(val(r) == x); CHECKM(&r == &a.back(), "emplace_back returns the new element"); ma.push_back(x); break; }
  case 11: { int x = symInt("x"); auto &r = a.emplace_front(x); CHECK(val(r) == x); CHECKM(&r == &a.front(), "emplace_front returns the new element"); ma.push_front(x); break; }
  case 12: { a.clear(); ma.clear(); break; }
  case 13: { L<T> w(a); same(w, ma); w.push_back(T(1)); same(a, ma); L<T> z; z = w; z.pop_front(); b = a; mb = ma; break; }
  case 14: { L<T> &r = (a = b); CHECK(&r == &a); ma = mb; break; }
  case 15: { b = a; mb = ma; break; }
  case 16: { L<T> &r = a; a = r; break; }
  case 17: { L<T> w(static_cast<L<T> &&>(a)); same(w, ma); a = w; break; }
  case 18: { // other iterators survive insertion and removal elsewhere
    assume(ma.n > 1); unsigned i = pick("i", ma.n), j = pick("j", ma.n); assume(i != j); auto keep = adv(a.begin(), i); const T *p = &*keep; int x = symInt("x"); a.insert(adv(a.cbegin(), j), T(x)); CHECK(&*keep == p); CHECK(val(*keep) == ma.a[i]); ma.insert(j, x); unsigned at = j <= i ? i + 1 : i; CHECK(keep == adv(a.begin(), at)); a.erase(adv(a.cbegin(), j)); ma.erase(j, j + 1); CHECK(val(*keep) == ma.a[i]); CHECK(keep == adv(a.begin(), i)); *keep = T(x); ma.a[i] = x; break; }
  // arguments that are the list's own elements
  case 19: { assume(ma.n > 0); unsigned i = pick("i", ma.n), j = pick("j", ma.n + 1); int x = ma.a[i]; a.insert(adv(a.cbegin(), j), *adv(a.begin(), i)); ma.insert(j, x); break; }
  case 20: { assume(ma.n > 0); int x = ma.a[0]; a.push_back(a.front()); ma.push_back(x); break; }
  case 21: { assume(ma.n > 0); int x = ma.a[ma.n - 1]; a.push_front(a.back()); ma.push_front(x); break; }
  }
}
template <class T, bool ALIAS> static void hist(unsigned k, unsigned n0) {
  {
    L<T> a, b; Seq ma, mb; fill(a, ma, pick("na", n0 + 1)); fill(b, mb, pick("nb", 3));
    for (unsigned i = 0; i < k; ++i) { step<T, ALIAS>(a, ma, b, mb); same(a, ma); }
    same(b, mb); sameMut(a, ma); obs(a.size()); if (ma.n) obs((unsigned)val(a.front()));
  }
  CHECKM(gLive == 0, "every constructed element is destroyed exactly once"); DONE();
}
SX_HARNESS(l01_hist) { hist<int, true>(K, N0); }
SX_HARNESS(l03_list) { hist<Tracked, true>(K, N0); }
SX_HARNESS(l01_grow) { hist<int, true>(1, GROW); }
SX_HARNESS(l03_grow) { hist<Tracked, true>(1, GROW); }
SX_HARNESS(l01_long) {
  {
    L<int> a; Seq m; for (unsigned i = 0; i < K; ++i) { switch (pick("op", 6)) { case 0: { int x = symInt("x"); a.push_back(x); m.push_back(x); break; } case 1: { int x = symInt("x"); a.push_front(x); m.push_front(x); break; } case 2: assume(m.n > 0); a.pop_back(); m.pop_back(); break; case 3: assume(m.n > 0); a.pop_front(); m.pop_front(); break; case 4: { int x = symInt("x"); int h = m.n / 2; a.insert(adv(a.cbegin(), h), x); m.insert(h, x); break; } case 5: { assume(m.n > 1); int h = m.n / 2; a.erase(adv(a.cbegin(), h)); m.erase(h, h + 1); break; } } same(a, m); } sameMut(a, m); L<int> c(a); same(c, m); c.clear(); same(a, m); }
  DONE();
}
SX_HARNESS(l01_big) { // many elements at each end, contents checked at an arbitrary position
  { unsigned nb = pick("nb", GROW), nf = pick("nf", GROW); L<int> a; Seq m; for (unsigned i = 0; i < nb; ++i) { int x = symInt("x"); a.push_back(x); m.push_back(x); } for (unsigned i = 0; i < nf; ++i) { int x = symInt("y"); a.push_front(x); m.push_front(x); } L<int> b(a); L<int> c; c = b; same(c, m); obs(c.size()); CHECK(c.get_allocator() == std::allocator<int>()); }
  DONE();
}
// ------------------------------------------------------------------------------------------------ forward_list
template <class T> using F = cest::forward_list<T>;
template <class Ft> static void fsame(const Ft &l, const Seq &m) {
  CHECK(l.empty() == (m.n == 0)); int i = 0;
  for (auto it = l.begin(); !(it == l.end()); ++it, ++i) { CHECKM(i < m.n, "traversal ends"); CHECKM(val(*it) == m.a[i], "traversal yields the denoted sequence"); CHECK(it.operator->() == &*it); }
  CHECK(i == m.n); i = 0; for (auto it = l.cbegin(); it != l.cend(); it++) ++i; CHECK(i == m.n); if (m.n) CHECK(val(l.front()) == m.a[0]);
}
template <class Ft> static void fsameMut(Ft &l, const Seq &m) {
  int i = 0; for (auto it = l.begin(); it != l.end(); ++i) { CHECKM(i < m.n, "traversal ends"); auto p = it++; CHECKM(val(*p) == m.a[i], "mutable traversal, post-increment returns the old position"); CHECK(p.operator->() == &*p); }
  CHECK(i == m.n); if (m.n) { CHECK(&l.front() == &*l.begin()); auto b = l.before_begin(); ++b; CHECK(b == l.begin()); }
}
template <class T> static void ffill(F<T> &l, Seq &m, unsigned n) { auto it = l.before_begin(); for (unsigned i = 0; i < n; ++i) { int x = symInt("x"); it = l.insert_after(it, T(x)); m.push_back(x); } }
template <class T, bool ALIAS> static void fstep(F<T> &a, Seq &ma, F<T> &b, Seq &mb) {
  switch (pick("op", ALIAS ? 15 : 13)) {
  case 0: { int x = symInt("x"); const T t(x); a.push_front(t); ma.push_front(x); break; }
  case 1: { int x = symInt("x"); a.push_front(T(x)); ma.push_front(x); break; }
  case 2: { assume(ma.n > 0); a.pop_front(); ma.pop_front(); break; }
  case 3: { unsigned i = pick("i", ma.n + 1); int x = symInt("x"); const T t(x); auto r = a.insert_after(adv(a.before_begin(), i), t); CHECKM(r == adv(a.before_begin(), i + 1), "insert_after returns the new element's position"); CHECK(val(*r) == x); ma.insert(i, x); break; }
  case 4: { unsigned i = pick("i", ma.n + 1); int x = symInt("x"); auto r = a.insert_after(adv(a.before_begin(), i), T(x)); CHECKM(r == adv(a.before_begin(), i + 1), "insert_after returns the new element's position"); ma.insert(i, x); break; }
  case 5: { assume(ma.n > 0); unsigned i = pick("i", ma.n); auto nx = adv(a.begin(), i + 1); auto r = a.erase_after(adv(a.before_begin(), i)); CHECKM(r == nx, "erase_after returns the position after the erased element"); ma.erase(i, i + 1); break; }
  case 6: { unsigned i = pick("i", ma.n + 1), j = pick("j", ma.n + 2); assume(i < j); auto last = adv(a.before_begin(), j); auto r = a.erase_after(adv(a.before_begin(), i), last); CHECKM(r == last, "range erase_after returns its end"); ma.erase(i, j - 1); break; }
  case 7: { a.clear(); ma.clear(); break; }
  case 8: { F<T> w(a); fsame(w, ma); w.push_front(T(1)); fsame(a, ma); b = a; mb = ma; break; }
  case 9: { F<T> &r = (a = b); CHECK(&r == &a); ma = mb; break; }
  case 10: { F<T> &r = a; a = r; break; }
  case 11: { a.swap(b); Seq t = ma; ma = mb; mb = t; break; }
  case 12: { // other iterators survive
    assume(ma.n > 1); unsigned i = pick("i", ma.n), j = pick("j", ma.n + 1); auto keep = adv(a.begin(), i); int x = symInt("x"); a.insert_after(adv(a.before_begin(), j), T(x)); CHECK(val(*keep) == ma.a[i]); CHECK(keep == adv(a.begin(), j <= i ? i + 1 : i)); a.erase_after(adv(a.before_begin(), j)); CHECK(keep == adv(a.begin(), i)); *keep = T(x); ma.a[i] = x; break; }
  case 13: { assume(ma.n > 0); unsigned i = pick("i", ma.n), j = pick("j", ma.n + 1); int x = ma.a[i]; a.insert_after(adv(a.before_begin(), j), *adv(a.begin(), i)); ma.insert(j, x); break; }
  case 14: { assume(ma.n > 0); int x = ma.a[0]; a.push_front(a.front()); ma.push_front(x); break; }
  }
}
template <class T, bool ALIAS> static void fhist(unsigned k, unsigned n0) {
  {
    F<T> a, b; Seq ma, mb; ffill(a, ma, pick("na", n0 + 1)); ffill(b, mb, pick("nb", 3));
    for (unsigned i = 0; i < k; ++i) { fstep<T, ALIAS>(a, ma, b, mb); fsame(a, ma); }
    fsame(b, mb); fsameMut(a, ma); if (ma.n) obs((unsigned)val(a.front()));
  }
  CHECKM(gLive == 0, "every constructed element is destroyed exactly once"); DONE();
}
SX_HARNESS(l02_hist) { fhist<int, true>(K, N0); }
SX_HARNESS(l03_flist) { fhist<Tracked, true>(K, N0); }
SX_HARNESS(l02_grow) { fhist<int, true>(1, GROW); }
SX_HARNESS(l03_fgrow) { fhist<Tracked, true>(1, GROW); }
SX_HARNESS(l02_long) {
  {
    F<int> a; Seq m; for (unsigned i = 0; i < K; ++i) { switch (pick("op", 5)) { case 0: { int x = symInt("x"); a.push_front(x); m.push_front(x); break; } case 1: assume(m.n > 0); a.pop_front(); m.pop_front(); break; case 2: { int x = symInt("x"); int h = m.n / 2; a.insert_after(adv(a.before_begin(), h), x); m.insert(h, x); break; } case 3: { assume(m.n > 1); int h = m.n / 2; a.erase_after(adv(a.before_begin(), h)); m.erase(h, h + 1); break; } case 4: { F<int> c(a); c.swap(a); break; } } fsame(a, m); } fsameMut(a, m); }
  DONE();
}

// histories of iterator operations; the list is built by insertions at either end and may lose elements, so node order and address order differ
SX_HARNESS(l01_walk) {
  L<int> l; int n = 0; unsigned size = pick("size", 4); for (unsigned i = 0; i < size; ++i) { if (pick("end", 2)) l.push_back((int)i); else l.push_front((int)i); ++n; } if (n && pick("erase", 2)) { l.erase(adv(l.begin(), pick("at", 3) % (unsigned)n)); --n; }
  const int *ad[4]; int c = 0; for (auto it = l.begin(); it != l.end(); ++it) { CHECK(c < n); ad[c++] = &*it; } CHECK(c == n); const L<int> &k = l; auto at = [&ad](int i) { return ad[i]; }; bool e = pick("atend", 2);
  switch (pick("iter", 4)) {
  case 0: walk<L<int>::iterator, true, false>(l.begin(), l.end(), n, at, e, K); break;
  case 1: walk<L<int>::const_iterator, true, false>(k.begin(), k.end(), n, at, e, K); break;
  case 2: walk<L<int>::reverse_iterator, true, false>(L<int>::reverse_iterator(l.end()), L<int>::reverse_iterator(l.begin()), n, [&ad, n](int i) { return ad[n - 1 - i]; }, e, 2); break;
  case 3: walk<L<int>::const_reverse_iterator, true, false>(L<int>::const_reverse_iterator(k.cend()), L<int>::const_reverse_iterator(k.cbegin()), n, [&ad, n](int i) { return ad[n - 1 - i]; }, e, 2); break;
  }
  DONE();
}
SX_HARNESS(l02_walk) {
  cest::forward_list<int> l; int n = 0; unsigned size = pick("size", 4); for (unsigned i = 0; i < size; ++i) { auto p = l.before_begin(); for (unsigned a = pick("at", 3) % (i + 1); a; --a) ++p; l.insert_after(p, (int)i); ++n; } if (n && pick("erase", 2)) { l.pop_front(); --n; }
  const int *ad[4]; int c = 0; for (auto it = l.begin(); it != l.end(); ++it) { CHECK(c < n); ad[c++] = &*it; } CHECK(c == n); const cest::forward_list<int> &k = l; auto at = [&ad](int i) { return ad[i]; };
  if (pick("const", 2)) walk<cest::forward_list<int>::const_iterator, false, false>(k.begin(), k.end(), n, at, false, K); else walk<cest::forward_list<int>::iterator, false, false>(l.begin(), l.end(), n, at, false, K);
  DONE();
}
// lengths around powers of two; every element is a different symbolic value
#include "huge.h"
SX_HARNESS(l01_huge) {
  const unsigned n = hugeN(); const int s = symInt("salt"); L<int> a; unsigned f = split("front", 2) ? n / 3 : 0;
  for (unsigned i = f; i < n; ++i) a.push_back((int)i ^ s); for (unsigned i = f; i > 0; --i) a.push_front((int)(i - 1) ^ s);
  auto holds = [&](const L<int> &l, unsigned k) { bool ok = l.size() == k; ok = both(ok, l.empty() == (k == 0)); unsigned i = 0; for (auto it = l.begin(); it != l.end() && i <= k; ++it, ++i) ok = both(ok, *it == ((int)i ^ s)); ok = both(ok, i == k); auto it = l.end(); while (i > 0) { --it; --i; ok = both(ok, *it == ((int)i ^ s)); } return both(ok, it == l.begin()); };
  CHECKM(holds(a, n), "traversal yields the elements"); L<int> b(a), c; CHECKM(holds(b, n), "a copy has the elements of its source"); c = b; CHECKM(holds(c, n), "assignment copies all elements");
  b.pop_back(); CHECKM(holds(b, n - 1), "pop_back"); b.push_back((int)(n - 1) ^ s); b.insert(b.cend(), (int)n ^ s); CHECKM(holds(b, n + 1), "insertion at the end"); auto r = b.erase(b.cbegin()); CHECK(r == b.begin()); CHECK(b.size() == n); CHECK(b.front() == (1 ^ s)); b.push_front(s); CHECKM(holds(b, n + 1), "push_front"); c.clear(); CHECKM(holds(c, 0), "clear"); b = c; CHECKM(holds(b, 0), "assignment of an empty list"); c = a; CHECKM(holds(c, n), "assignment to an empty list"); obs(a.size()); DONE();
}
SX_HARNESS(l02_huge) {
  const unsigned n = hugeN(); const int s = symInt("salt"); F<int> a; auto it = a.before_begin();
  if (split("front", 2)) for (unsigned i = n; i > 0; --i) a.push_front((int)(i - 1) ^ s); else for (unsigned i = 0; i < n; ++i) it = a.insert_after(it, (int)i ^ s);
  auto holds = [&](const F<int> &l, unsigned k) { bool ok = l.empty() == (k == 0); unsigned i = 0; for (auto it = l.begin(); it != l.end() && i <= k; ++it, ++i) ok = both(ok, *it == ((int)i ^ s)); return both(ok, i == k); };
  CHECKM(holds(a, n), "traversal yields the elements"); F<int> b(a), c; CHECKM(holds(b, n), "a copy has the elements of its source"); c = b; CHECKM(holds(c, n), "assignment copies all elements"); c.swap(b); CHECK(holds(b, n)); b.pop_front(); CHECK(b.front() == (1 ^ s)); b.push_front(s); CHECKM(holds(b, n), "push_front"); auto l = b.before_begin(); for (unsigned i = 0; i < 60; ++i) ++l; b.erase_after(l, b.end()); CHECKM(holds(b, 60), "erase_after removes a long range"); b = a; CHECKM(holds(b, n), "assignment grows"); c.clear(); CHECK(holds(c, 0)); obs(n); DONE();
}
SX_HARNESS(l03_huge) {
  {
    const unsigned n = hugeN(6); if (split("kind", 2)) { L<Tracked> a; for (unsigned i = 0; i < n; ++i) if (i & 1) a.push_back(Tracked((int)i)); else a.push_front(Tracked((int)i)); CHECK(gLive == (long)n); L<Tracked> b(a), c; c = b; CHECK(gLive == 3 * (long)n); for (unsigned i = 0; i < n / 2; ++i) { a.pop_back(); b.pop_front(); } CHECK(gLive == 3 * (long)n - 2 * (long)(n / 2)); a = c; c = b; b.clear(); CHECK(gLive == (long)n + (long)(n - n / 2)); a.push_back(a.front()); a = b; }
    else { F<Tracked> a; for (unsigned i = 0; i < n; ++i) a.push_front(Tracked((int)i)); CHECK(gLive == (long)n); F<Tracked> b(a), c; c = b; CHECK(gLive == 3 * (long)n); a.erase_after(a.begin(), a.end()); CHECK(gLive == 2 * (long)n + 1); b.swap(a); b = c; for (unsigned i = 0; i < n / 2; ++i) c.pop_front(); c = a; CHECK(gLive == 3 * (long)n); b.clear(); CHECK(gLive == 2 * (long)n); }
    obs(n);
  }
  CHECKM(gLive == 0, "every constructed element is destroyed exactly once"); DONE();
}
