// A01: standard algorithms over cest ranges. The oracle is the definition of the algorithm on the denoted sequence (a plain array).
#define MAXN 48
#include "seq.h"
#include "cest/algorithm.hpp"
#include "cest/numeric.hpp"
#include "cest/iterator.hpp"
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/string.hpp"
#include "cest/array.hpp"
#include "bounds.h"
#ifndef N0
#define N0 3
#endif
#ifndef W
#define W 2
#endif
template <class C> struct Put { static void put(C &c, int x) { c.push_back(x); } };
template <> struct Put<cest::forward_list<int>> { static void put(cest::forward_list<int> &c, int x) { auto p = c.before_begin(); for (auto q = c.begin(); q != c.end(); ++q) ++p; c.insert_after(p, x); } };
template <class C> static void fill(C &c, Seq &m, unsigned n, const char *nm = "x") { for (unsigned i = 0; i < n; ++i) { int x = symInt(nm); Put<C>::put(c, x); m.push_back(x); } }
static void sorted(const Seq &m) { for (int i = 0; i + 1 < m.n; ++i) assume(m.a[i] <= m.a[i + 1]); }
template <class C> static void isSeq(const C &c, const int *a, int n) { int i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) { CHECKM(i < n, "the result is no longer than the definition says"); CHECKM(*it == a[i], "the result holds the elements the definition says"); } CHECKM(i == n, "the result is as long as the definition says"); }
// algorithms that read [b, e), a forward range denoting m
template <bool ADV = true, class It> static void readF(It b, It e, const Seq &m) {
  const int n = m.n;
  switch (pick("alg", 18)) {
  case 0: { unsigned s = 7; for (int i = 0; i < n; ++i) s = s * 3 + (unsigned)m.a[i]; CHECKM(cest::accumulate(b, e, 7u, [](unsigned a, int x) { return a * 3 + (unsigned)x; }) == s, "accumulate"); break; }
  case 1: { int v = symInt("v"); int i = 0; while (i < n && m.a[i] != v) ++i; auto r = cest::find(b, e, v); It x = b; for (int q = 0; q < i; ++q) ++x; CHECKM(r == x, "find"); break; }
  case 2: { int v = symInt("v"); int k = 0; for (int i = 0; i < n; ++i) k += m.a[i] == v; CHECKM((int)cest::count(b, e, v) == k, "count"); break; }
  case 3: { CHECKM((int)std::distance(b, e) == n, "distance"); break; }
  case 4: { int o[MAXN]; int *r = cest::copy(b, e, o); CHECKM(r - o == n, "copy: number of elements"); for (int i = 0; i < n; ++i) CHECKM(o[i] == m.a[i], "copy: elements"); break; }
  case 5: { CHECKM(cest::equal(b, e, m.a), "equal"); Seq d(m); assume(n > 0); d.a[pick("i", n)] = symInt("v"); bool same = true; for (int i = 0; i < n; ++i) same = both(same, d.a[i] == m.a[i]); CHECKM(cest::equal(b, e, d.a) == same, "equal"); CHECKM(cest::equal(b, e, d.a, d.a + n) == same, "equal with both ends"); CHECKM(!cest::equal(b, e, m.a, m.a + n - 1), "equal to a shorter range"); break; }
  case 6: { unsigned s = 1; int k = 0; cest::for_each(b, e, [&](int x) { s = s * 5 + (unsigned)x; ++k; }); unsigned q = 1; for (int i = 0; i < n; ++i) q = q * 5 + (unsigned)m.a[i]; CHECKM(k == n, "for_each calls once per element"); CHECKM(s == q, "for_each visits in order"); break; }
  case 7: { assume(n > 0); int k = 0; for (int i = 1; i < n; ++i) if (m.a[i] < m.a[k]) k = i; It x = b; for (int q = 0; q < k; ++q) ++x; CHECKM(cest::min_element(b, e) == x, "min_element"); break; }
  case 8: { assume(n > 0); int k = 0; for (int i = 1; i < n; ++i) if (m.a[k] < m.a[i]) k = i; It x = b; for (int q = 0; q < k; ++q) ++x; CHECKM(cest::max_element(b, e) == x, "max_element"); break; }
  case 9: { int v = symInt("v"); bool any = false, all = true; for (int i = 0; i < n; ++i) { any = either(any, m.a[i] < v); all = both(all, m.a[i] < v); } auto p = [&](int x) { return x < v; }; CHECKM(cest::any_of(b, e, p) == any, "any_of"); CHECKM(cest::all_of(b, e, p) == all, "all_of"); CHECKM(cest::none_of(b, e, p) == !any, "none_of"); break; }
  case 10: { int v = symInt("v"); int i = 0; while (i < n && !(m.a[i] < v)) ++i; It x = b; for (int q = 0; q < i; ++q) ++x; CHECKM(cest::find_if(b, e, [&](int y) { return y < v; }) == x, "find_if"); CHECKM(cest::find_if_not(b, e, [&](int y) { return !(y < v); }) == x, "find_if_not"); break; }
  case 11: { bool s = true; for (int i = 0; i + 1 < n; ++i) s = both(s, !(m.a[i + 1] < m.a[i])); CHECKM(cest::is_sorted(b, e) == s, "is_sorted"); break; }
  case 12: { int i = 0; while (i + 1 < n && m.a[i] != m.a[i + 1]) ++i; if (i + 1 >= n) i = n; It x = b; for (int q = 0; q < i; ++q) ++x; CHECKM(cest::adjacent_find(b, e) == x, "adjacent_find"); break; }
  case 13: { unsigned o[MAXN]; auto r = cest::transform(b, e, o, [](int x) { return (unsigned)x * 2u + 1u; }); CHECKM(r - o == n, "transform: number"); for (int i = 0; i < n; ++i) CHECKM(o[i] == (unsigned)m.a[i] * 2u + 1u, "transform: elements"); break; }
  case 14: { unsigned w[MAXN]; unsigned s = 5; for (int i = 0; i < n; ++i) { w[i] = symUInt("w"); s += (unsigned)m.a[i] * w[i]; } CHECKM(cest::inner_product(b, e, w, 5u, [](unsigned p, unsigned q) { return p + q; }, [](int p, unsigned q) { return (unsigned)p * q; }) == s, "inner_product"); break; }
  case 15: { int v = symInt("v"); int o[MAXN]; auto r = cest::copy_if(b, e, o, [&](int x) { return x < v; }); int k = 0; for (int i = 0; i < n; ++i) if (m.a[i] < v) { CHECKM(k < r - o, "copy_if: number"); CHECKM(o[k] == m.a[i], "copy_if: elements"); ++k; } CHECKM(r - o == k, "copy_if: number"); break; }
  case 16: { unsigned i = pick("from", n + 1), l = pick("len", n + 1 - i); int q = 0; for (;; ++q) { bool hit = true; if (q + (int)l > n) { q = n; break; } for (unsigned t = 0; t < l; ++t) if (m.a[q + t] != m.a[i + t]) { hit = false; break; } if (hit) break; } It x = b; for (int t = 0; t < q; ++t) ++x; CHECKM(cest::search(b, e, m.a + i, m.a + i + l) == x, "search"); break; }
  case 17: { unsigned k = pick("k", n + 1); It mid = b; if constexpr (ADV) std::advance(mid, k); else for (unsigned q = 0; q < k; ++q) ++mid; Seq s; for (int i = 0; i < (int)k; ++i) s.push_back(m.a[i]); int i = 0; for (It q = b; !(q == mid); ++q, ++i) CHECKM(*q == m.a[i], "advance"); CHECKM(i == (int)k, "advance"); CHECKM(std::distance(b, mid) == (long)k, "distance to the middle"); CHECKM(std::distance(mid, e) == (long)(n - k), "distance from the middle"); It nx = b; if (n) { ++nx; CHECKM(std::distance(b, nx) == 1, "next"); } break; }
  }
}
template <class C> static void read() { C c; Seq m; fill(c, m, pick("n", N0 + 1)); if (pick("const", 2)) { const C &k = c; readF(k.begin(), k.end(), m); } else readF(c.begin(), c.end(), m); DONE(); }
SX_HARNESS(a01_read_vector) { read<cest::vector<int>>(); }
SX_HARNESS(a01_read_list) { read<cest::list<int>>(); }
SX_HARNESS(a01_read_flist) { read<cest::forward_list<int>>(); }
// bidirectional, reversed
SX_HARNESS(a01_read_reverse) { cest::vector<int> c; Seq m, r; fill(c, m, pick("n", N0 + 1)); for (int i = m.n; i-- > 0;) r.push_back(m.a[i]); if (pick("list", 2)) { cest::list<int> l; for (int i = 0; i < m.n; ++i) l.push_back(m.a[i]); readF(std::make_reverse_iterator(l.end()), std::make_reverse_iterator(l.begin()), r); } else readF(c.rbegin(), c.rend(), r); DONE(); }
// sets and maps: the sequence denoted is the sorted one
SX_HARNESS(a01_read_set) { cest::set<int> c; Seq m; unsigned n = pick("n", N0 + 1); for (unsigned i = 0; i < n; ++i) { int x = symInt("x"); c.insert(x); int p = 0; while (p < m.n && m.a[p] < x) ++p; if (p == m.n || m.a[p] != x) m.insert(p, x); } readF<false>(c.begin(), c.end(), m); DONE(); }
struct InsertInto { using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void; cest::map<int, int> *d; InsertInto &operator*() { return *this; } InsertInto &operator++() { return *this; } InsertInto &operator++(int) { return *this; } template <class P> InsertInto &operator=(const P &p) { d->insert(p); return *this; } };
SX_HARNESS(a01_read_map) {
  cest::map<int, int> mc; const auto &c = mc; Seq m, v; unsigned n = pick("n", N0 + 1); for (unsigned i = 0; i < n; ++i) { int x = symInt("x"), y = symInt("y"); mc.insert({x, y}); int p = 0; while (p < m.n && m.a[p] < x) ++p; if (p == m.n || m.a[p] != x) { m.insert(p, x); v.insert(p, y); } }
  switch (pick("alg", 6)) {
  case 0: { unsigned s = 0; for (int i = 0; i < m.n; ++i) s = s * 3 + (unsigned)m.a[i] * 7 + (unsigned)v.a[i]; CHECKM(cest::accumulate(c.begin(), c.end(), 0u, [](unsigned a, const auto &p) { return a * 3 + (unsigned)p.first * 7 + (unsigned)p.second; }) == s, "accumulate over a map"); break; }
  case 1: { CHECKM(std::distance(c.begin(), c.end()) == m.n, "distance over a map"); break; }
  case 2: { int w = symInt("w"); int k = 0; for (int i = 0; i < m.n; ++i) k += v.a[i] == w; CHECKM(cest::count_if(c.begin(), c.end(), [&](const auto &p) { return p.second == w; }) == k, "count_if over a map"); break; }
  case 3: { int w = symInt("w"); int i = 0; while (i < m.n && v.a[i] != w) ++i; auto x = c.begin(); for (int q = 0; q < i; ++q) ++x; CHECKM(cest::find_if(c.begin(), c.end(), [&](const auto &p) { return p.second == w; }) == x, "find_if over a map"); break; }
  case 4: { int i = 0; cest::for_each(c.begin(), c.end(), [&](const auto &p) { CHECK(i < m.n); CHECKM(both(p.first == m.a[i], p.second == v.a[i]), "for_each over a map visits in key order"); ++i; }); CHECK(i == m.n); break; }
  case 5: { cest::vector<int> o; cest::transform(c.begin(), c.end(), cest::back_inserter(o), [](const auto &p) { return p.first; }); isSeq(o, m.a, m.n); cest::map<int, int> d; cest::copy(c.begin(), c.end(), InsertInto{&d}); int i = 0; const auto &dc = d; for (auto it = dc.begin(); it != dc.end(); ++it, ++i) CHECKM(both((*it).first == m.a[i], (*it).second == v.a[i]), "copy of a map element by element"); CHECK(i == m.n); break; }
  }
  DONE();
}
SX_HARNESS(a01_read_string) {
  cest::string s; char m[16]; int n = (int)pick("n", N0 + 1); for (int i = 0; i < n; ++i) { m[i] = symChar("c"); s.push_back(m[i]); }
  const cest::string &k = s;
  switch (pick("alg", 7)) {
  case 0: { char v = symChar("v"); int i = 0; while (i < n && m[i] != v) ++i; CHECKM(cest::find(s.begin(), s.end(), v) - s.begin() == i, "find in a string"); break; }
  case 1: { char v = symChar("v"); int c = 0; for (int i = 0; i < n; ++i) c += m[i] == v; CHECKM(cest::count(k.begin(), k.end(), v) == c, "count in a string"); break; }
  case 2: { cest::reverse(s.begin(), s.end()); CHECK((int)s.size() == n); for (int i = 0; i < n; ++i) CHECKM(s[i] == m[n - 1 - i], "reverse of a string"); break; }
  case 3: { cest::string t; cest::copy(k.begin(), k.end(), cest::back_inserter(t)); CHECK((int)t.size() == n); for (int i = 0; i < n; ++i) CHECKM(t[i] == m[i], "copy to a string through back_inserter"); CHECKM(t == s, "the copy compares equal"); break; }
  case 4: { cest::vector<char> t; cest::copy(s.begin(), s.end(), cest::back_inserter(t)); CHECK((int)t.size() == n); for (int i = 0; i < n; ++i) CHECKM(t[i] == m[i], "copy of a string to a vector"); break; }
  case 5: { cest::list<char> l; cest::copy(s.begin(), s.end(), std::front_inserter(l)); int i = 0; for (auto it = l.begin(); it != l.end(); ++it, ++i) CHECKM(*it == m[n - 1 - i], "copy of a string to a list"); CHECK(i == n); break; }
  case 6: { char v = symChar("v"), w = symChar("w"); cest::replace(s.begin(), s.end(), v, w); for (int i = 0; i < n; ++i) CHECKM(s[i] == (m[i] == v ? w : m[i]), "replace in a string"); break; }
  }
  DONE();
}
// deque: sequential algorithms, also around a chunk boundary (its iterators have no random access operations)
static void readDeque(const cest::deque<int> &c, cest::deque<int> &nc, const Seq &m) {
  const int n = m.n;
  switch (pick("alg", 8)) {
  case 0: { unsigned s = 7; for (int i = 0; i < n; ++i) s = s * 3 + (unsigned)m.a[i]; CHECKM(cest::accumulate(c.begin(), c.end(), 7u, [](unsigned a, int x) { return a * 3 + (unsigned)x; }) == s, "accumulate over a deque"); break; }
  case 1: { int v = symInt("v"); int i = 0; while (i < n && m.a[i] != v) ++i; auto x = c.begin(); for (int q = 0; q < i; ++q) ++x; CHECKM(cest::find(c.begin(), c.end(), v) == x, "find in a deque"); break; }
  case 2: { int v = symInt("v"); int k = 0; for (int i = 0; i < n; ++i) k += m.a[i] == v; CHECKM(cest::count(nc.begin(), nc.end(), v) == k, "count in a deque"); break; }
  case 3: { CHECKM(std::distance(c.begin(), c.end()) == n, "distance over a deque"); CHECKM(std::distance(nc.begin(), nc.end()) == n, "distance over a deque"); break; }
  case 4: { int o[MAXN]; int *r = cest::copy(c.begin(), c.end(), o); CHECK(r - o == n); for (int i = 0; i < n; ++i) CHECKM(o[i] == m.a[i], "copy from a deque"); break; }
  case 5: { CHECKM(cest::equal(c.begin(), c.end(), m.a), "equal over a deque"); CHECKM(cest::equal(c.begin(), c.end(), nc.begin(), nc.end()), "a deque equals itself"); break; }
  case 6: { int k = 0; cest::for_each(nc.begin(), nc.end(), [&](int &x) { CHECK(k < n); CHECKM(x == m.a[k], "for_each over a deque"); x = (int)((unsigned)x + 1u); ++k; }); CHECK(k == n); for (int i = 0; i < n; ++i) CHECKM(nc[i] == (int)((unsigned)m.a[i] + 1u), "for_each modifies the elements"); break; }
  case 7: { cest::vector<int> o; cest::copy(c.begin(), c.end(), cest::back_inserter(o)); isSeq(o, m.a, n); cest::list<int> l; cest::copy(c.begin(), c.end(), std::front_inserter(l)); Seq r; for (int i = n; i-- > 0;) r.push_back(m.a[i]); isSeq(l, r.a, n); break; }
  }
}
SX_HARNESS(a01_read_deque) { cest::deque<int> c; Seq m; fill(c, m, pick("n", N0 + 1)); readDeque(c, c, m); DONE(); }
SX_HARNESS(a01_deque_edge) { // the elements straddle a chunk boundary: a long history of push/pop moves the window first
  cest::deque<int> c; Seq m; bool back = split("back", 2); unsigned shift = 508 + split("shift", 2 * W); if (back) for (unsigned i = 0; i < shift; ++i) { c.push_back(1); c.pop_front(); } else for (unsigned i = 0; i < shift; ++i) { c.push_front(1); c.pop_back(); }
  fill(c, m, 3); readDeque(c, c, m); DONE();
}
// algorithms that write in place through random access iterators
SX_HARNESS(a01_vector_inplace) {
  cest::vector<int> c; Seq m; fill(c, m, pick("n", N0 + 1)); const int n = m.n; auto b = c.begin(), e = c.end();
  switch (pick("alg", 12)) {
  case 0: { cest::reverse(b, e); for (int i = 0; i < n; ++i) CHECKM(c[i] == m.a[n - 1 - i], "reverse"); break; }
  case 1: { unsigned k = pick("k", n + 1); auto r = cest::rotate(b, b + k, e); CHECKM(r - b == n - (int)k, "rotate: returned position"); for (int i = 0; i < n; ++i) CHECKM(c[i] == m.a[(i + k) % n], "rotate: elements"); break; }
  case 2: case 3: { if (pick("stable", 2)) cest::stable_sort(b, e); else cest::sort(b, e); for (int i = 0; i + 1 < n; ++i) CHECKM(!(c[i + 1] < c[i]), "sort: ordered"); int v = symInt("v"); int k = 0, q = 0; for (int i = 0; i < n; ++i) { k += m.a[i] == v; q += c[i] == v; } CHECKM(k == q, "sort: a permutation"); break; }
  case 4: { sorted(m); int v = symInt("v"); int k = 0; for (int i = 0; i < n; ++i) k += m.a[i] < v; int u = 0; for (int i = 0; i < n; ++i) u += !(v < m.a[i]); CHECKM(cest::lower_bound(b, e, v) - b == k, "lower_bound"); CHECKM(cest::upper_bound(b, e, v) - b == u, "upper_bound"); CHECKM(cest::binary_search(b, e, v) == (u != k), "binary_search"); break; }
  case 5: { int v = symInt("v"); auto r = cest::remove(b, e, v); int k = 0; for (int i = 0; i < n; ++i) if (m.a[i] != v) { CHECKM(c[k] == m.a[i], "remove: elements"); ++k; } CHECKM(r - b == k, "remove: returned position"); c.erase(r, c.end()); CHECKM((int)c.size() == k, "erase-remove"); break; }
  case 6: { auto r = cest::unique(b, e); int k = 0; for (int i = 0; i < n; ++i) if (i == 0 || m.a[i] != m.a[i - 1]) { CHECKM(c[k] == m.a[i], "unique"); ++k; } CHECKM(r - b == k, "unique: returned position"); break; }
  case 7: { int v = symInt("v"); cest::fill(b, e, v); for (int i = 0; i < n; ++i) CHECKM(c[i] == v, "fill"); cest::iota(b, e, 3); for (int i = 0; i < n; ++i) CHECKM(c[i] == 3 + i, "iota"); break; }
  case 8: { cest::vector<int> d(c); Seq q(m); cest::swap_ranges(b, e, d.begin()); isSeq(c, q.a, n); isSeq(d, m.a, n); break; }
  case 9: { int v = symInt("v"); auto r = cest::partition(b, e, [&](int x) { return x < v; }); int k = 0; for (int i = 0; i < n; ++i) k += m.a[i] < v; CHECKM(r - b == k, "partition: returned position"); for (int i = 0; i < n; ++i) CHECKM((c[i] < v) == (i < k), "partition"); break; }
  case 10: { unsigned o = 0; cest::vector<unsigned> d; cest::partial_sum(b, e, cest::back_inserter(d), [](unsigned p, unsigned q) { return p + q; }); CHECK((int)d.size() == n); for (int i = 0; i < n; ++i) { o += (unsigned)m.a[i]; CHECKM(d[i] == o, "partial_sum"); } break; }
  case 11: { bool g = cest::next_permutation(b, e); bool desc = true; for (int i = 0; i + 1 < n; ++i) desc = both(desc, !(m.a[i] < m.a[i + 1])); CHECKM(g == !desc, "next_permutation"); CHECKM(cest::lexicographical_compare(m.a, m.a + n, c.begin(), c.end()) == !desc, "next_permutation: greater than before"); break; }
  }
  DONE();
}
SX_HARNESS(a01_list_inplace) {
  cest::list<int> c; Seq m; fill(c, m, pick("n", N0 + 1)); const int n = m.n; int o[MAXN];
  switch (pick("alg", 5)) {
  case 0: { cest::reverse(c.begin(), c.end()); for (int i = 0; i < n; ++i) o[i] = m.a[n - 1 - i]; isSeq(c, o, n); break; }
  case 1: { unsigned k = pick("k", n + 1); auto mid = c.begin(); std::advance(mid, k); cest::rotate(c.begin(), mid, c.end()); for (int i = 0; i < n; ++i) o[i] = m.a[(i + k) % n]; isSeq(c, o, n); break; }
  case 2: { int v = symInt("v"); auto r = cest::remove(c.begin(), c.end(), v); int k = 0; for (int i = 0; i < n; ++i) if (m.a[i] != v) o[k++] = m.a[i]; auto it = c.begin(); for (int i = 0; i < k; ++i, ++it) CHECKM(*it == o[i], "remove in a list"); CHECKM(it == r, "remove in a list: returned position"); break; }
  case 3: { int v = symInt("v"), w = symInt("w"); cest::replace(c.begin(), c.end(), v, w); for (int i = 0; i < n; ++i) o[i] = m.a[i] == v ? w : m.a[i]; isSeq(c, o, n); break; }
  case 4: { cest::forward_list<int> f; Seq g; fill(f, g, n); unsigned k = pick("k", n + 1); auto mid = f.begin(); std::advance(mid, k); cest::rotate(f.begin(), mid, f.end()); for (int i = 0; i < n; ++i) o[i] = g.a[(i + k) % n]; isSeq(f, o, n); break; }
  }
  DONE();
}
// binary algorithms: two sorted ranges from any two containers into any target
template <class F> static void withRange(unsigned which, const Seq &m, F f) {
  switch (which) {
  case 0: { cest::vector<int> c; for (int i = 0; i < m.n; ++i) c.push_back(m.a[i]); f(c.begin(), c.end()); break; }
  case 1: { cest::list<int> c; for (int i = 0; i < m.n; ++i) c.push_back(m.a[i]); f(c.begin(), c.end()); break; }
  case 2: { cest::deque<int> c; for (int i = 0; i < m.n; ++i) c.push_back(m.a[i]); f(c.begin(), c.end()); break; }
  case 3: { cest::forward_list<int> c; for (int i = m.n; i-- > 0;) c.push_front(m.a[i]); f(c.begin(), c.end()); break; }
  case 4: { cest::set<int> c; for (int i = 0; i < m.n; ++i) c.insert(m.a[i]); f(c.begin(), c.end()); break; }
  }
}
template <class A, class B, class O> static O bin(unsigned alg, A b1, A e1, B b2, B e2, O o) {
  switch (alg) { case 0: return cest::set_intersection(b1, e1, b2, e2, o); case 1: return cest::set_union(b1, e1, b2, e2, o); case 2: return cest::set_difference(b1, e1, b2, e2, o); case 3: return cest::set_symmetric_difference(b1, e1, b2, e2, o); default: return cest::merge(b1, e1, b2, e2, o); }
}
SX_HARNESS(a01_binary) {
  unsigned s = split("src", 7), alg = split("alg", 5), t = split("dst", 6);
  static const unsigned char p[7][2] = {{0, 0}, {1, 0}, {2, 1}, {3, 4}, {4, 2}, {4, 4}, {2, 3}}; unsigned w1 = p[s][0], w2 = p[s][1];
  Seq a, b; unsigned na = split("na", W + 1), nb = split("nb", W + 1); for (unsigned i = 0; i < na; ++i) a.push_back(symInt("a")); for (unsigned i = 0; i < nb; ++i) b.push_back(symInt("b")); sorted(a); sorted(b);
  if (w1 == 4) for (int i = 0; i + 1 < a.n; ++i) assume(a.a[i] != a.a[i + 1]); if (w2 == 4) for (int i = 0; i + 1 < b.n; ++i) assume(b.a[i] != b.a[i + 1]);
  int ref[MAXN]; int n = (int)(bin(alg, a.a, a.a + a.n, b.a, b.a + b.n, ref) - ref);
  withRange(w1, a, [&](auto b1, auto e1) { withRange(w2, b, [&](auto b2, auto e2) {
    switch (t) {
    case 0: { cest::vector<int> o; bin(alg, b1, e1, b2, e2, cest::back_inserter(o)); isSeq(o, ref, n); break; }
    case 1: { cest::list<int> o; bin(alg, b1, e1, b2, e2, cest::back_inserter(o)); isSeq(o, ref, n); break; }
    case 2: { cest::deque<int> o; bin(alg, b1, e1, b2, e2, cest::back_inserter(o)); isSeq(o, ref, n); break; }
    case 3: { cest::set<int> o; bin(alg, b1, e1, b2, e2, cest::inserter(o, o.end())); int u[MAXN]; int k = 0; for (int i = 0; i < n; ++i) if (!k || u[k - 1] != ref[i]) u[k++] = ref[i]; isSeq(o, u, k); break; }
    case 4: { cest::list<int> o; o.push_back(42); bin(alg, b1, e1, b2, e2, cest::inserter(o, o.begin())); int u[MAXN]; for (int i = 0; i < n; ++i) u[i] = ref[i]; u[n] = 42; isSeq(o, u, n + 1); break; }
    case 5: { int u[MAXN]; for (int i = 0; i < n; ++i) u[i] = ref[n - 1 - i]; cest::deque<int> o; bin(alg, b1, e1, b2, e2, std::front_inserter(o)); isSeq(o, u, n); cest::forward_list<int> f; bin(alg, b1, e1, b2, e2, std::front_inserter(f)); isSeq(f, u, n); break; }
    } }); });
  DONE();
}
SX_HARNESS(a01_includes) { // equality, inclusion and ordering of two ranges from different containers
  Seq a, b; unsigned na = pick("na", W + 1), nb = pick("nb", W + 1); for (unsigned i = 0; i < na; ++i) a.push_back(symInt("a")); for (unsigned i = 0; i < nb; ++i) b.push_back(symInt("b")); unsigned alg = pick("alg", 3); if (alg == 0) { sorted(a); sorted(b); }
  unsigned w1 = split("w1", 4), w2 = split("w2", 4);
  withRange(w1, a, [&](auto b1, auto e1) { withRange(w2, b, [&](auto b2, auto e2) {
    switch (alg) {
    case 0: CHECKM(cest::includes(b1, e1, b2, e2) == cest::includes(a.a, a.a + a.n, b.a, b.a + b.n), "includes"); break;
    case 1: { bool eq = a.n == b.n; for (int i = 0; i < a.n && i < b.n; ++i) eq = both(eq, a.a[i] == b.a[i]); CHECKM(cest::equal(b1, e1, b2, e2) == eq, "equal"); break; }
    case 2: { if constexpr (requires { b1 + 1; } || !std::is_same_v<typename std::iterator_traits<decltype(b1)>::iterator_category, std::random_access_iterator_tag>) if constexpr (requires { b2 + 1; } || !std::is_same_v<typename std::iterator_traits<decltype(b2)>::iterator_category, std::random_access_iterator_tag>) { bool lt = false; int i = 0; for (; i < a.n && i < b.n; ++i) { if (a.a[i] < b.a[i]) { lt = true; break; } if (b.a[i] < a.a[i]) break; } if (i == a.n && i < b.n) lt = true; CHECKM(cest::lexicographical_compare(b1, e1, b2, e2) == lt, "lexicographical_compare"); } break; }
    } }); });
  DONE();
}
// cest::array is the standard one; it stores and yields what it is given
SX_HARNESS(a01_array) { int x = symInt("x"), y = symInt("y"), z = symInt("z"); cest::array<int, 3> a{x, y, z}; Seq m; m.push_back(x); m.push_back(y); m.push_back(z); readF(a.begin(), a.end(), m); DONE(); }
