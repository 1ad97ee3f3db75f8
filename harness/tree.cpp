#include "sx.h"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include <functional>
#include "bounds.h"
#include "walk.h"
#ifndef K
#define K 4
#endif
#ifndef N0
#define N0 16
#endif
static inline bool both(bool a, bool b) { return (unsigned)a & (unsigned)b; }
static inline bool either(bool a, bool b) { return (unsigned)a | (unsigned)b; }
// keys that only a comparator can order: no ==, no <
#ifdef SX_PLAIN
struct Opaque { int v; explicit Opaque(int x) : v(x) {} bool operator==(const Opaque &o) const { return v == o.v; } bool operator!=(const Opaque &o) const { return v != o.v; } };
#else
struct Opaque { int v; explicit Opaque(int x) : v(x) {} bool operator==(const Opaque &) const = delete; bool operator!=(const Opaque &) const = delete; };
#endif
static unsigned gCmp;
struct Less { template <class A, class B> bool operator()(const A &a, const B &b) const { ++gCmp; return key(a) < key(b); } static int key(int x) { return x; } static int key(short x) { return x; } static int key(const Opaque &o) { return o.v; } static int key(const Tracked &t) { return t.get(); } };
struct Greater { template <class A, class B> bool operator()(const A &a, const B &b) const { ++gCmp; return Less::key(b) < Less::key(a); } };
// equivalence coarser than equality: the low bit does not count
struct Half { template <class A, class B> bool operator()(const A &a, const B &b) const { ++gCmp; return (Less::key(a) >> 1) < (Less::key(b) >> 1); } };
static bool eqv(Less, int a, int b) { return a == b; }
static bool eqv(Greater, int a, int b) { return a == b; }
static bool eqv(Half, int a, int b) { return (a >> 1) == (b >> 1); }
static bool eqv(std::less<int>, int a, int b) { return a == b; }
static bool eqv(std::greater<int>, int a, int b) { return a == b; }
static bool before(Less, int a, int b) { return a < b; }
static bool before(Greater, int a, int b) { return b < a; }
static bool before(Half, int a, int b) { return (a >> 1) < (b >> 1); }
static bool before(std::less<int>, int a, int b) { return a < b; }
static bool before(std::greater<int>, int a, int b) { return b < a; }
// the insertions made so far; equivalents of it are computed without branching
template <class C> struct Hist {
  int k[600], v[600], n = 0;
  bool has(int x) const { bool r = false; for (int i = 0; i < n; ++i) r = either(r, eqv(C{}, k[i], x)); return r; }
  int first(int x, const int *a) const { int e = 0; for (int i = n - 1; i >= 0; --i) { unsigned m = 0u - (unsigned)eqv(C{}, k[i], x); e = (int)(((unsigned)a[i] & m) | ((unsigned)e & ~m)); } return e; }
  int key(int x) const { return first(x, k); }   // the key first inserted that is equivalent to x
  int value(int x) const { return first(x, v); } // and the value that came with it
  unsigned distinct() const { unsigned d = 0; for (int i = 0; i < n; ++i) { bool seen = false; for (int j = 0; j < i; ++j) seen = either(seen, eqv(C{}, k[j], k[i])); d += !seen; } return d; }
};
static int kv(int x) { return x; }
static int kv(const Opaque &o) { return o.v; }
static int kv(const Tracked &t) { return t.get(); }
template <class A, class B> static int kv(const std::pair<const A, B> &p) { return kv(p.first); }
static int vv(int) { return 0; }
static int vv(const Opaque &) { return 0; }
static int vv(const Tracked &) { return 0; }
template <class A, class B> static int vv(const std::pair<const A, B> &p) { return kv(p.second); }
template <class Key, class C> struct SetOf { using T = cest::set<Key, C>; static constexpr bool map = false; static auto ins(T &t, int k, int) { const Key x(k); return t.insert(x); } };
template <class Key, class Val, class C> struct MapOf { using T = cest::map<Key, Val, C>; static constexpr bool map = true; static auto ins(T &t, int k, int v) { const std::pair<const Key, Val> x{Key(k), Val(v)}; return t.insert(x); } };

template <class A, class C, class Tree> static void same(const Tree &t, const Hist<C> &h) {
  int out[300]; int n = 0, lim = h.n;
  for (auto it = t.begin(); it != t.end(); ++it, ++n) { CHECKM(n < lim, "iteration ends"); out[n] = kv(*it); if (n) CHECKM(before(C{}, out[n - 1], out[n]), "iteration is strictly increasing in comparator order"); if (A::map) CHECKM(vv(*it) == h.value(out[n]), "an entry keeps the value first inserted for its key"); CHECKM(out[n] == h.key(out[n]), "an entry keeps the key first inserted"); }
  CHECK((int)t.size() == n); CHECK(t.empty() == (n == 0));
  for (int i = 0; i < h.n; ++i) { bool in = false; for (int j = 0; j < n; ++j) in = either(in, eqv(C{}, out[j], h.k[i])); CHECKM(in, "every inserted key is visited"); }
  CHECKM((unsigned)n == h.distinct(), "size() is the number of distinct keys");
  int j = 0; for (auto it = t.cbegin(); it != t.cend();) { CHECK(j < n); auto p = it++; CHECKM(kv(*p) == out[j], "post-increment returns the old position"); CHECK(kv(*p.operator->()) == out[j]); ++j; } CHECK(j == n);
}
template <class A, class C, class It> static void checkIns(const Hist<C> &h, int k, int v, It it, bool added) { // h: before the insertion
  bool had = h.has(k); CHECKM(added == !had, "insert reports whether it added");
  unsigned m = 0u - (unsigned)had; int ek = (int)(((unsigned)h.key(k) & m) | ((unsigned)k & ~m)), evl = (int)(((unsigned)h.value(k) & m) | ((unsigned)v & ~m));
  CHECKM(kv(*it) == ek, "insert returns the entry equivalent to its argument"); if (A::map) CHECKM(vv(*it) == evl, "inserting an existing key changes nothing");
}
template <class A, class C, class Tree> static void lookup(Tree &t, const Hist<C> &h, const char *name) {
  int p = symInt(name); const Tree &c = t; using Key = typename Tree::key_type; const Key key(p);
  auto it = t.find(key); bool found = it != t.end(); CHECKM(found == h.has(p), "find finds exactly the keys held");
  if (found) { CHECKM(kv(*it) == h.key(p), "find returns the entry of the key"); if (A::map) CHECKM(vv(*it) == h.value(p), "find returns the value first inserted"); }
  auto ci = c.find(key); CHECK((ci != c.end()) == found); if (found) { CHECK(&*ci == &*it); auto a = ci; ++a; auto b = it; ++b; if (a != c.end()) CHECKM(&*a == &*b, "iteration continues from a found entry"); else CHECK(b == t.end()); }
}
// K insertions of arbitrary keys, observed after each
template <class A, class C, bool EACH = true> static void order(unsigned count) {
  { typename A::T t; Hist<C> h; CHECK(t.begin() == t.end()); CHECK(t.size() == 0); CHECK(t.empty());
    typename A::T::iterator its[K + 1];
    for (unsigned i = 0; i < count; ++i) {
      int k = symInt("k"), v = A::map ? symInt("v") : 0; auto r = A::ins(t, k, v); its[i] = r.first; checkIns<A, C>(h, k, v, r.first, r.second); h.k[h.n] = k; h.v[h.n++] = v;
      if (EACH || i + 1 == count) { same<A, C>(t, h); for (unsigned j = 0; j <= i; ++j) CHECKM(kv(*its[j]) == h.key(h.k[j]), "iterators obtained earlier keep denoting the same key"); }
    }
    lookup<A, C>(t, h, "probe"); obs(t.size()); }
  CHECK(gLive == 0); DONE();
}
static int pattern(unsigned kind, unsigned i, unsigned n) { // concrete insertion orders of the keys 0,2,..,2(n-1)
  unsigned r = i;
  switch (kind) {
  case 0: r = i; break;                                        // ascending
  case 1: r = n - 1 - i; break;                                // descending
  case 2: r = i & 1 ? n - 1 - i / 2 : i / 2; break;            // outside in
  case 3: r = i & 1 ? n / 2 + (i + 1) / 2 - (n / 2 + (i + 1) / 2 >= n ? n : 0) : n / 2 - i / 2; break; // inside out
  case 4: r = (i * 7919u + 3) % n; break;                      // scrambled (n not a multiple of 7919)
  case 5: r = i < n / 2 ? i : n - 1 - (i - n / 2); break;      // ascending, then descending
  case 6: r = (i / 4) * 4 + 3 - i % 4; r = r < n ? r : i; break; // blocks backwards
  }
  return (int)(r < n ? r : i) * 2;
}
static unsigned bound(unsigned n) { unsigned l = 0; while ((2ull << l) <= (unsigned long long)n + 1) ++l; /* floor(log2(n+1)) */ // 2*(2*log2(n+1)+1) rounded down, with log2 taken from a table of exact thresholds
  double t = 1; for (unsigned i = 0; i < l; ++i) t *= 2; double x = (n + 1) / t; // 1 <= x < 2
  unsigned q = 0; double y = x; for (int i = 0; i < 2; ++i) { y = y * y; q *= 2; if (y >= 2) { y /= 2; ++q; } } // floor(4*log2(x))
  return 4 * l + q + 2; }
template <class A, class C> static void big(unsigned n, bool balance) {
  { typename A::T t; Hist<C> h; unsigned kind = pick("order", 7);
    for (unsigned i = 0; i < n; ++i) { int k = pattern(kind, i, n), v = (int)i + 100; gCmp = 0; auto r = A::ins(t, k, v); if (balance) CHECKM(gCmp <= bound(h.n), "an insertion makes O(log n) comparisons"); h.k[h.n] = k; h.v[h.n++] = v; CHECK(r.second || kind >= 3); CHECK(kv(*r.first) == k); }
    unsigned d = t.size();
    if (balance) switch (pick("what", 4)) { case 0: { int p = symInt("probe"); using Key = typename A::T::key_type; const Key key(p); gCmp = 0; auto it = t.find(key); CHECKM(gCmp <= bound(d), "a lookup makes O(log n) comparisons"); CHECK((it != t.end()) == h.has(p)); obs(d); DONE(); return; } case 1: { int p = symInt("probe"); using Key = typename A::T::key_type; const Key key(p); const typename A::T &c = t; gCmp = 0; auto ci = c.find(key); CHECKM(gCmp <= bound(d), "a const lookup makes O(log n) comparisons"); CHECK((ci != c.end()) == h.has(p)); obs(d); DONE(); return; } case 2: { short s = (short)symShort("hetero"); gCmp = 0; auto hi = t.find(s); CHECKM(gCmp <= bound(d), "a lookup by another key type makes O(log n) comparisons"); CHECK((hi != t.end()) == h.has(s)); obs(d); DONE(); return; } default:; }
    int k = symInt("k"), v = symInt("v"); gCmp = 0; auto r = A::ins(t, k, v); if (balance) CHECKM(gCmp <= bound(d), "an insertion makes O(log n) comparisons");
    checkIns<A, C>(h, k, v, r.first, r.second); 
    bool in = false; int prev = 0; unsigned cnt = 0; for (auto it = t.begin(); it != t.end(); ++it, ++cnt) { CHECKM(cnt <= d, "iteration ends"); if (cnt) CHECKM(before(C{}, prev, kv(*it)), "iteration is strictly increasing in comparator order"); prev = kv(*it); in = either(in, eqv(C{}, prev, k)); }
    CHECK(in); CHECK(cnt == t.size()); CHECK(cnt == d + (r.second ? 1u : 0u)); obs(cnt); }
  CHECK(gLive == 0); DONE();
}
// K arbitrary insertions, each within the comparison bound; then an arbitrary lookup
template <class A, class C> static void cost(unsigned count, unsigned pre) {
  { typename A::T t; unsigned kind = pre ? pick("order", 3) : 0; for (unsigned i = 0; i < pre; ++i) A::ins(t, pattern(kind, i, pre), 0);
    for (unsigned i = 0; i < count; ++i) { int k = symInt("k"); unsigned n = t.size(); gCmp = 0; A::ins(t, k, (int)i); CHECKM(gCmp <= bound(n), "an insertion makes O(log n) comparisons"); }
    int p = symInt("probe"); using Key = typename A::T::key_type; const Key key(p); gCmp = 0; auto it = t.find(key); CHECKM(gCmp <= bound(t.size()), "a lookup makes O(log n) comparisons"); (void)it; obs(t.size()); }
  DONE();
}
using SI = SetOf<int, Less>; using SG = SetOf<int, std::greater<int>>; using SL = SetOf<int, std::less<int>>; using SO = SetOf<Opaque, Half>; using ST = SetOf<Tracked, Greater>;
using MI = MapOf<int, int, Less>; using MG = MapOf<int, int, std::greater<int>>; using MO = MapOf<Opaque, Opaque, Half>; using MT = MapOf<Tracked, Tracked, Less>; using ML = MapOf<int, int, std::less<int>>;
SX_HARNESS(t01_order) { order<SL, std::less<int>>(K); }
SX_HARNESS(t01_end) { order<SI, Less, false>(K); }
SX_HARNESS(t01_comp) { if (pick("type", 2)) order<SO, Half>(K); else order<SG, std::greater<int>>(K); }
SX_HARNESS(t01_big) { big<SI, Less>(N0, false); }
SX_HARNESS(m01_order) { order<ML, std::less<int>>(K); }
SX_HARNESS(m01_end) { order<MI, Less, false>(K); }
SX_HARNESS(m01_comp) { if (pick("type", 2)) order<MO, Half>(K); else order<MG, std::greater<int>>(K); }
SX_HARNESS(m01_big) { big<MI, Less>(N0, false); }
SX_HARNESS(t02_set) { cost<SI, Less>(K, 0); }
SX_HARNESS(t02_map) { cost<MI, Less>(K, 0); }
SX_HARNESS(t02_set_pre) { cost<SI, Less>(K, N0); }
SX_HARNESS(t02_map_pre) { cost<MI, Less>(K, N0); }
SX_HARNESS(t02_set_big) { big<SI, Less>(N0, true); }
SX_HARNESS(t02_map_big) { big<MI, Less>(N0, true); }
// an adversary that keeps inserting where a lookup is currently most expensive (as told by comparator calls), or by other rules
static int gRank[256];
struct Ranked { bool operator()(int a, int b) const { ++gCmp; return gRank[a] < gRank[b]; } };
template <class A> static void adversary(unsigned n) { // keys are 1..n, key 0 is the probe; the rank of a key is twice its place in the order plus two
  { typename A::T t; unsigned mode = pick("mode", 54); unsigned seed = mode * 2654435761u + 1; int at[256]; // at[i]: key at place i
    for (unsigned i = 0; i < n; ++i) {
      unsigned g = 0, mx = 0, c = 0; 
      if (mode >= 22) { // next to the c smallest or the c largest keys so far, by turns
        static const unsigned cs[4] = {1, 2, 3, 5}; unsigned j = mode - 22, cc = cs[j & 3], m = i < cc ? i : cc, alt = j >> 3; bool right = (j >> 2 & 1) ^ (alt == 1 ? i & 1 : alt == 2 ? i >> 2 & 1 : 0); g = alt == 3 && (i & 1) ? i / 2 : right ? i - m : m; }
      else if (mode >= 18) g = mode == 18 ? (i & 1 ? i : 0) : mode == 19 ? (i & 1 ? 0 : i) : mode == 20 ? i / 2 : (i + 1) / 2;
      else { unsigned cost[256]; for (unsigned k = 0; k <= i; ++k) { gRank[0] = 2 * (int)k + 1; gCmp = 0; auto it = t.find(0); CHECK(it == t.end()); cost[k] = gCmp; CHECKM(gCmp <= bound(i), "a lookup makes O(log n) comparisons"); }
        // insertions descend in the tree; the number of comparisons is twice the depth less the left turns, so several measures are tried
        for (unsigned k = 0; k <= i; ++k) if (cost[k] > mx) mx = cost[k]; unsigned sel[256];
        for (unsigned k = 0; k <= i; ++k) if (cost[k] + (mode & 1 ? i / 16 : 0) >= mx) sel[c++] = k;
        seed = seed * 1664525u + 1013904223u; g = mode == 0 ? sel[0] : mode == 1 ? sel[c - 1] : mode == 2 ? sel[i & 1 ? c - 1 : 0] : mode == 3 ? sel[c / 2] : sel[(seed >> 8) % c]; }
      for (unsigned k = i; k > g; --k) at[k] = at[k - 1]; at[g] = (int)i + 1; for (unsigned k = g; k <= i; ++k) gRank[at[k]] = 2 * (int)k + 2;
      gCmp = 0; auto r = A::ins(t, (int)i + 1, (int)i); CHECKM(gCmp <= bound(i), "an insertion makes O(log n) comparisons"); CHECK(r.second);
    }
    int p = symInt("place"); assume(p >= 0); assume(p <= 2 * (int)n + 3); gRank[0] = p; gCmp = 0; auto it = t.find(0); CHECKM(gCmp <= bound(n), "a lookup makes O(log n) comparisons"); CHECKM((it != t.end()) == ((p >= 2) & (p <= 2 * (int)n) & (p % 2 == 0)), "find finds exactly the keys held");
    gCmp = 0; A::ins(t, 0, 7); CHECKM(gCmp <= bound(n), "an insertion makes O(log n) comparisons"); obs(t.size()); }
  DONE();
}
SX_HARNESS(t02_set_adv) { adversary<SetOf<int, Ranked>>(N0); }
SX_HARNESS(t02_map_adv) { adversary<MapOf<int, int, Ranked>>(N0); }
// hints and other key types
SX_HARNESS(t01_hint) {
  cest::set<int, Less> s; Hist<Less> h; unsigned n = 1 + pick("n", N0); for (unsigned i = 0; i < n; ++i) { int k = symInt("k"); s.insert(k); h.k[h.n] = k; h.v[h.n++] = 0; }
  for (unsigned i = 0; i < K; ++i) { auto hint = s.cbegin(); unsigned steps = pick("hint", 4); for (unsigned j = 0; j < steps && hint != s.cend(); ++j) ++hint; int k = symInt("hk"); unsigned before_ = s.size(); bool had = h.has(k); auto it = s.insert(hint, k); CHECKM(*it == h.key(k) || !had, "insert with a hint returns the equivalent element"); CHECKM(*it == k, "insert with a hint returns the equivalent element"); CHECK(s.size() == before_ + (had ? 0u : 1u)); h.k[h.n] = k; h.v[h.n++] = 0; same<SI, Less>(s, h); }
  obs(s.size()); DONE();
}
template <class A, class C> static void hetero() {
  typename A::T t; Hist<C> h; unsigned n = pick("n", 4); for (unsigned i = 0; i < n; ++i) { int k = symInt("k"), v = A::map ? symInt("v") : 0; A::ins(t, k, v); h.k[h.n] = k; h.v[h.n++] = v; }
  short p = symShort("probe"); const auto &c = t; auto it = t.find(p); bool f = it != t.end(); CHECKM(f == h.has(p), "find by another key type finds exactly the equivalent keys"); if (f) { CHECK(kv(*it) == h.key(p)); if (A::map) CHECK(vv(*it) == h.value(p)); } auto ci = c.find(p); CHECK((ci != c.end()) == f); if (f) CHECK(&*ci == &*it); obs(f); DONE();
}
SX_HARNESS(t01_hetero) { if (pick("type", 2)) hetero<SO, Half>(); else hetero<SI, Less>(); }
SX_HARNESS(m01_hetero) { if (pick("type", 2)) hetero<MO, Half>(); else hetero<MI, Less>(); }
// values modified through iterators
SX_HARNESS(m01_modify) {
  cest::map<int, int, Less> t; int k[3], v[3], n = 2 + (int)pick("n", 2); for (int i = 0; i < n; ++i) { k[i] = symInt("k"); v[i] = symInt("v"); } for (int i = 0; i < n; ++i) { auto r = t.insert(std::pair<const int, int>(k[i], v[i])); assume(r.second); }
  int w = symInt("w"), p = symInt("probe"); auto it = t.find(p); if (it == t.end()) { for (int i = 0; i < n; ++i) CHECK(k[i] != p); DONE(); return; }
  it->second = w; const auto &c = t; CHECKM(c.find(p)->second == w, "a value modified through an iterator is what lookups see"); (*it).second = w; auto r = t.insert(std::pair<const int, int>(p, 5)); CHECK(!r.second); CHECK(r.first->second == w); r.first->second = w + 1u; CHECK(t.find(p)->second == (int)(w + 1u));
  for (int i = 0; i < n; ++i) CHECKM(t.find(k[i])->second == (k[i] == p ? (int)(w + 1u) : v[i]), "other values are unchanged"); auto q = t.find(k[0]); auto z = q++; CHECK(z->first == k[0]); typename cest::map<int, int, Less>::const_iterator ci = z; CHECK(ci->first == k[0]); CHECK(ci == c.find(k[0])); DONE();
}
SX_HARNESS(m01_init) { cest::map<int, int> m; CHECK(m.find(3) == m.end()); const cest::map<int, int> &c = m; CHECK(c.find(3) == c.cend()); CHECK(c.find(short(3)) == c.end()); CHECK(m.find(short(3)) == m.end()); m.clear(); CHECK(m.empty()); DONE(); }
// clear, copy and assign, then go on
#ifndef EXTRA
#define EXTRA 0
#endif
template <class A, class C> static void reuse() {
  { using T = typename A::T; T t, o; Hist<C> h, ho; unsigned n = pick("n", 3), how = pick("how", 4), m = how == 1 || how == 2 ? pick("m", 3) : 0, q = 1;
    auto add = [](T &x, Hist<C> &hx) { int k = symInt("k"), v = A::map ? symInt("v") : 0; auto r = A::ins(x, k, v); checkIns<A, C>(hx, k, v, r.first, r.second); hx.k[hx.n] = k; hx.v[hx.n++] = v; };
    for (unsigned i = 0; i < n; ++i) add(t, h);
    switch (how) {
    case 0: t.clear(); h.n = 0; break;
    case 1: for (unsigned i = 0; i < m; ++i) add(o, ho); t = o; h = ho; break;
    case 2: { T c(t); ho = h; for (unsigned i = 0; i < m; ++i) add(c, ho); same<A, C>(t, h); break; }
    case 3: { T &r = t; t = r; break; }
    }
    for (unsigned i = 0; i < q + (how == 0 || how == 3) * EXTRA; ++i) add(t, h); same<A, C>(t, h); lookup<A, C>(t, h, "probe"); obs(t.size()); }
  CHECK(gLive == 0); DONE();
}
SX_HARNESS(t01_reuse) { reuse<SI, Less>(); }
SX_HARNESS(m01_reuse) { reuse<MI, Less>(); }
SX_HARNESS(t01_init) { cest::set<int> m; CHECK(m.find(3) == m.end()); const cest::set<int> &c = m; CHECK(c.find(3) == c.cend()); CHECK(c.find(short(3)) == c.end()); CHECK(m.find(short(3)) == m.end()); m.clear(); CHECK(m.empty()); DONE(); }
// ---- ownership and copies
template <class A, class C> static void own(unsigned count) {
  {
    using T = typename A::T; T t; Hist<C> h;
    for (unsigned i = 0; i < count; ++i) {
      switch (pick("op", 6)) {
      case 0: { int k = symInt("k"), v = A::map ? symInt("v") : 0; A::ins(t, k, v); h.k[h.n] = k; h.v[h.n++] = v; break; }
      case 1: t.clear(); h.n = 0; CHECKM(gLive == 0, "clear destroys every element"); break;
      case 2: { T w(t); same<A, C>(w, h); A::ins(w, symInt("cw"), 1); same<A, C>(t, h); break; }
      case 3: { T w(t); Hist<C> g(h); int k = symInt("k"); A::ins(t, k, 7); h.k[h.n] = k; h.v[h.n++] = 7; same<A, C>(w, g); t.clear(); same<A, C>(w, g); const T &cw = w; T &r = (t = cw); CHECK(&r == &t); w.clear(); same<A, C>(t, g); h = g; break; }
      case 4: { T &r = t; t = r; break; }
      case 5: { T w; A::ins(w, symInt("cw"), 2); w = t; same<A, C>(w, h); A::ins(w, 5, 9); T e; w = e; CHECK(w.empty()); CHECK(w.begin() == w.end()); break; }
      }
    }
    same<A, C>(t, h); lookup<A, C>(t, h, "probe"); obs(t.size());
  }
  CHECKM(gLive == 0, "every element is destroyed exactly once"); DONE();
}
SX_HARNESS(t03_set) { own<SetOf<Tracked, Less>, Less>(K); }
SX_HARNESS(t03_map) { own<MT, Less>(K); }
SX_HARNESS(t03_order) { if (pick("map", 2)) order<MT, Less>(N0); else order<ST, Greater>(N0); }
SX_HARNESS(t03_self) { { cest::set<Tracked, Less> s; s.insert(Tracked(symInt("a"))); s.insert(Tracked(symInt("b"))); unsigned n = s.size(); int f = (*s.begin()).get(); auto r = s.insert(*s.begin()); CHECK(!r.second); CHECK(s.size() == n); CHECK((*s.begin()).get() == f); cest::map<Tracked, Tracked, Less> m; m.insert({Tracked(symInt("c")), Tracked(4)}); auto r2 = m.insert(*m.begin()); CHECK(!r2.second); CHECK(m.size() == 1); } CHECK(gLive == 0); DONE(); }
SX_HARNESS(t03_big) { if (pick("map", 2)) big<MT, Less>(N0, false); else big<SetOf<Tracked, Less>, Less>(N0, false); }

// histories of iterator operations on the tree of K keys inserted in any order; then another insertion, through which every iterator stays where it was
template <class A> static void twalk() {
  typename A::T t; unsigned n = 0, size = pick("size", K + 1); for (unsigned i = 0; i < size; ++i) n += A::ins(t, symInt("k"), (int)i).second;
  using V = typename A::T::value_type; const V *ad[8]; int key[8]; typename A::T::const_iterator its[8]; unsigned c = 0; for (auto it = t.cbegin(); it != t.cend(); ++it) { CHECK(c < n); its[c] = it; key[c] = kv(*it); ad[c++] = &*it; } CHECK(c == n);
  const typename A::T &k = t; walk<typename A::T::const_iterator, false, false>(k.begin(), k.end(), (int)n, [&ad](int i) { return ad[i]; }, false, N0);
  int x = symInt("new"); bool added = A::ins(t, x, 9).second; unsigned pos = 0; for (unsigned i = 0; i < n; ++i) { CHECKM(&*its[i] == ad[i], "iterators keep denoting the same element when others are inserted"); CHECK(kv(*its[i]) == key[i]); pos += key[i] < x; }
  for (unsigned i = 0; i < n; ++i) { auto nx = its[i]; ++nx; if (added && i + 1 == pos) { CHECKM(nx != t.cend(), "an iterator obtained earlier walks on to elements inserted later"); CHECK(kv(*nx) == x); ++nx; } if (i + 1 < n) CHECK(nx == its[i + 1]); else CHECK(nx == t.cend()); }
  DONE();
}
SX_HARNESS(t01_walk) { twalk<SL>(); }
SX_HARNESS(m01_walk) { twalk<ML>(); }
// sizes around powers of two
#include "huge.h"
template <class A, bool BAL> static void hugeTree() {
  const unsigned n = hugeN(5); unsigned kind = split("order", BAL ? 7 : 3); typename A::T t; bool ok = true; unsigned cnt = 0;
  for (unsigned i = 0; i < n; ++i) { int k = pattern(kind, i, n); gCmp = 0; auto r = A::ins(t, k, k + 1); cnt += r.second; ok = both(ok, kv(*r.first) == k); ok = both(ok, gCmp <= bound(i)); } CHECKM(ok, "insert returns the element equivalent to its argument, after O(log n) comparisons"); CHECK(t.size() == cnt); CHECK(kind >= 3 || cnt == n);
  int prev = -1; unsigned c = 0; for (auto it = t.begin(); it != t.end() && c <= cnt; ++it, ++c) { ok = both(ok, kv(*it) > prev); prev = kv(*it); } CHECKM(ok && c == cnt, "iteration is strictly increasing and complete");
  typename A::T u(t), w; w = t; ok = u.size() == cnt; ok = both(ok, w.size() == cnt); auto iu = u.begin(); auto iw = w.begin(); for (auto it = t.begin(); it != t.end(); ++it, ++iu, ++iw) { ok = both(ok, kv(*iu) == kv(*it)); ok = both(ok, kv(*iw) == kv(*it)); } CHECKM(ok, "copies are equal");
  int x = symInt("x"); int d = (int)(split("place", 3)); d = d == 0 ? 0 : d == 1 ? (int)n : 2 * ((int)n - 1); x = d + (x & 1); using Key = typename A::T::key_type; gCmp = 0; auto it = t.find(Key(x)); CHECK(gCmp <= bound(cnt)); CHECKM((it != t.end()) == (x % 2 == 0) || kind >= 3, "find"); if (it != t.end()) CHECK(kv(*it) == x); t.clear(); CHECK(t.empty()); CHECK(t.begin() == t.end()); CHECK(u.size() == cnt); obs(cnt); DONE();
}
SX_HARNESS(t01_huge) { hugeTree<SI, false>(); }
SX_HARNESS(m01_huge) { hugeTree<MI, false>(); }
SX_HARNESS(t02_huge) { if (split("map", 2)) hugeTree<MI, true>(); else hugeTree<SI, true>(); }
template <class A> static void hugeOwn() {
  {
    const unsigned n = hugeN(5); typename A::T t, c; unsigned kind = split("order", 3); for (unsigned i = 0; i < n; ++i) A::ins(t, pattern(kind, i, n), (int)i); long per = gLive; CHECK(per >= (long)n); for (unsigned i = 0; i < n; i += 5) A::ins(t, pattern(kind, i, n), 1); CHECKM(gLive == per, "inserting an existing key keeps nothing"); typename A::T u(t); CHECK(gLive == 2 * per); c = u; CHECK(gLive == 3 * per); A::ins(c, 1, 1); u.clear(); u = c; c = t; CHECK(t.size() == n); CHECK(u.size() == n + 1); t.clear(); u = t; CHECK(gLive == per); obs(n);
  }
  CHECKM(gLive == 0, "every constructed element is destroyed exactly once"); DONE();
}
SX_HARNESS(t03_huge) { if (split("map", 2)) hugeOwn<MT>(); else hugeOwn<SetOf<Tracked, Less>>(); }
