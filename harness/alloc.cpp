// G01: all element and node storage comes from, and goes back to, the container's own allocator.
#include "sx.h"
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/list.hpp"
#include "cest/forward_list.hpp"
#include "cest/set.hpp"
#include "cest/map.hpp"
#include "cest/string.hpp"
#include "cest/queue.hpp"
#include "bounds.h"
#ifndef K
#define K 3
#endif
#ifndef N0
#define N0 2
#endif
#ifndef W
#define W 1
#endif
// the ledger: every block handed out, who handed it out, and whether it is still out
#define LEDGER 4096
struct Ent { char *p; size_t n, bytes; int id; bool live; };
static Ent gL[LEDGER]; static int gN = 0, gOut = 0, gId = 0;
static int entryOf(const void *q) { const char *c = (const char *)q; for (int i = gN; i-- > 0;) if (gL[i].live && c >= gL[i].p && c < gL[i].p + gL[i].bytes) return i; return -1; }
template <class T> struct Led {
  using value_type = T; int id;
  Led() : id(++gId) {}
  Led(const Led &o) = default; Led &operator=(const Led &o) = default;
  template <class U> Led(const Led<U> &o) : id(o.id) {}
  T *allocate(size_t n) { CHECKM(n > 0, "allocate is asked for at least one element"); char *p = (char *)::operator new(n * sizeof(T)); CHECK(gN < LEDGER); gL[gN++] = {p, n, n * sizeof(T), id, true}; ++gOut; return (T *)p; }
  void deallocate(T *p, size_t n) {
    int i = gN - 1; while (i >= 0 && !(gL[i].live && gL[i].p == (char *)p)) --i;
    CHECKM(i >= 0, "only blocks the allocator handed out, not yet returned, are returned to it");
    CHECKM(gL[i].n == n, "a block is returned with the count it was obtained with"); CHECKM(gL[i].bytes == n * sizeof(T), "a block is returned to an allocator of the same type");
    CHECKM(gL[i].id == id, "a block is returned to the allocator it came from"); gL[i].live = false; --gOut; ::operator delete(p);
  }
  friend bool operator==(const Led &a, const Led &b) { return a.id == b.id; }
  friend bool operator!=(const Led &a, const Led &b) { return a.id != b.id; }
};
typedef cest::vector<int, Led<int>> V; typedef cest::vector<Tracked, Led<Tracked>> VT; typedef cest::deque<int, Led<int>> DQ; typedef cest::list<int, Led<int>> LI; typedef cest::list<Tracked, Led<Tracked>> LT; typedef cest::forward_list<int, Led<int>> FL;
typedef cest::set<int, std::less<int>, Led<int>> SE; typedef cest::map<int, int, std::less<int>, Led<std::pair<const int, int>>> MA; typedef cest::basic_string<char, std::char_traits<char>, Led<char>> ST;
template <class C, class T> struct SeqOps {
  static void put(C &c, int x) { c.push_back(T(x)); } static bool drop(C &c) { if (c.empty()) return false; c.pop_back(); return true; }
  static void extra(C &c, int) { c.clear(); }
};
template <class C> struct Ops;
template <class V2, class T> struct VecOps : SeqOps<V2, T> { static void extra(V2 &c, int k) { if (k == 0) c.reserve(c.size() + 3); else if (k == 1) c.resize(c.size() + 2); else if (k == 2) c.erase(c.begin(), c.begin() + c.size() / 2); else if (k == 3) { if (!c.empty()) c.push_back(c[0]); } else c.resize(c.size() / 2); } };
template <> struct Ops<V> : VecOps<V, int> {}; template <> struct Ops<VT> : VecOps<VT, Tracked> {};
template <> struct Ops<DQ> : SeqOps<DQ, int> { static void extra(DQ &c, int k) { if (k == 0) c.push_front(1); else if (k == 1) c.pop_front(); else if (k == 2) { for (int i = 0; i < 6; ++i) c.push_front(i); } else if (k == 3) { for (int i = 0; i < 6; ++i) c.pop_front(); } else { for (int i = 0; i < 512; ++i) c.push_back(i); } } };
template <class L2, class T> struct ListOps : SeqOps<L2, T> { static void extra(L2 &c, int k) { if (k == 0) c.push_front(T(1)); else if (k == 1) { if (!c.empty()) c.pop_front(); } else if (k == 2) { auto it = c.begin(); if (it != c.end()) ++it; c.insert(it, T(5)); } else if (k == 3) { if (!c.empty()) c.erase(c.begin()); } else { c.emplace_back(3); c.emplace_front(4); c.emplace(c.begin(), 5); } } };
template <> struct Ops<LI> : ListOps<LI, int> {}; template <> struct Ops<LT> : ListOps<LT, Tracked> {};
template <> struct Ops<FL> { static void put(FL &c, int x) { c.push_front(x); } static bool drop(FL &c) { if (c.empty()) return false; c.pop_front(); return true; }
  static void extra(FL &c, int k) { if (k == 0) c.insert_after(c.before_begin(), 3); else if (k == 1) { if (!c.empty()) c.erase_after(c.before_begin()); } else if (k == 2) { if (!c.empty()) c.insert_after(c.begin(), 4); } else if (k == 3) c.erase_after(c.before_begin(), c.end()); else { const int v = 3; c.push_front(v); } } };
template <> struct Ops<SE> { static void put(SE &c, int x) { c.insert(x); } static bool drop(SE &) { return false; } static void extra(SE &c, int k) { if (k == 4) c.insert(c.begin(), 3); else c.insert(2 * k); } };
template <> struct Ops<MA> { static void put(MA &c, int x) { c.insert({x, 1}); } static bool drop(MA &) { return false; } static void extra(MA &c, int k) { c.insert({2 * k, k}); } };
template <> struct Ops<ST> { static void put(ST &c, int x) { c.push_back((char)x); } static bool drop(ST &c) { if (c.empty()) return false; c.pop_back(); return true; }
  static void extra(ST &c, int k) { if (k == 0) c.reserve(c.size() + 3); else if (k == 1) c += "abcdefg"; else if (k == 2) c += c; else if (k == 3) c = "hello, you"; else { c.append("xyz", 2); if (!c.empty()) c.push_back(c[0]); } } };
template <class C> concept HasSwap = requires(C &a, C &b) { a.swap(b); };
// every element lies in a block on loan; blocks of different containers differ
template <class C> static void owned(const C &c, int id = 0) { for (auto it = c.begin(); it != c.end(); ++it) { int e = entryOf(&*it); CHECKM(e >= 0, "elements live in storage taken from the allocator"); if (id) CHECKM(gL[e].id == id, "elements live in storage taken from the allocator given"); } }
template <class C> static void apart(const C &a, const C &b) {
  static unsigned char mark[LEDGER]; for (int i = 0; i < gN; ++i) mark[i] = 0; int last = -1; const char *lo = 0, *hi = 0;
  auto at = [&](const void *q) { const char *c = (const char *)q; if (!(c >= lo && c < hi)) { last = entryOf(q); if (last >= 0) { lo = gL[last].p; hi = lo + gL[last].bytes; } } return last; };
  for (auto i = a.begin(); i != a.end(); ++i) { int e = at(&*i); if (e >= 0) mark[e] = 1; }
  for (auto j = b.begin(); j != b.end(); ++j) { int e = at(&*j); if (e >= 0) CHECKM(!mark[e], "two containers never share a block"); }
}
template <class C> static void step(C &a, C &b) {
  using O = Ops<C>;
  switch (pick("op", 12)) {
  case 0: O::put(a, 7); break;
  case 1: assume(O::drop(a)); break;
  case 2: a.clear(); break;
  case 3: a = b; break;
  case 4: b = a; break;
  case 5: { C &r = a; a = r; break; }
  case 6: if constexpr (HasSwap<C>) a.swap(b); else assume(false); break;
  case 7: { C w(a); O::put(w, 9); owned(w); apart(w, a); O::put(a, 8); break; }
  case 8: { C w(static_cast<C &&>(a)); O::put(w, 9); owned(w); a = w; break; }
  case 9: { C w(b); a = static_cast<C &&>(w); break; }
  case 10: O::extra(a, (int)pick("extra", 5)); break;
  case 11: { C w; O::put(w, 1); w = a; O::put(w, 2); w.clear(); O::put(w, 3); b = w; break; }
  }
}
template <class C> static void hist(unsigned k) {
  { C a, b; unsigned na = pick("na", N0 + 1), nb = pick("nb", N0 + 1); for (unsigned i = 0; i < na; ++i) Ops<C>::put(a, symInt("x")); for (unsigned i = 0; i < nb; ++i) Ops<C>::put(b, (int)(3 * i)); 
    for (unsigned i = 0; i < k; ++i) { step(a, b); owned(a); owned(b); apart(a, b); } obs(gOut); }
  CHECKM(gOut == 0, "every block is returned to its allocator"); CHECK(gLive == 0); DONE();
}
SX_HARNESS(g01_vector) { hist<V>(K); }
SX_HARNESS(g01_vector_obj) { hist<VT>(K); }
SX_HARNESS(g01_deque) { hist<DQ>(K); }
SX_HARNESS(g01_list) { hist<LI>(K); }
SX_HARNESS(g01_list_obj) { hist<LT>(K); }
SX_HARNESS(g01_flist) { hist<FL>(K); }
SX_HARNESS(g01_set) { hist<SE>(K); }
SX_HARNESS(g01_map) { hist<MA>(K); }
SX_HARNESS(g01_string) { hist<ST>(K); }
// constructors that take an allocator use that one
template <class C> static void given(C &c, int id, bool always) {
  owned(c, id); unsigned n = split("pushes", 6); for (unsigned i = 0; i < n; ++i) { Ops<C>::put(c, (int)i); owned(c, id); } unsigned k = split("extra", 5); Ops<C>::extra(c, (int)k); owned(c, id); Ops<C>::drop(c); owned(c, id);
}
SX_HARNESS(g01_given) {
  { Led<int> li; Led<char> lc; const char *s = "abcdefghijklmnopqrstuvwxyz"; struct In { using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char *; using reference = const char &; const char *p; const char &operator*() const { return *p; } In &operator++() { ++p; return *this; } In operator++(int) { In r = *this; ++p; return r; } bool operator==(const In &o) const { return p == o.p; } bool operator!=(const In &o) const { return p != o.p; } };
    unsigned n = split("n", 20);
    switch (split("ctor", 9)) {
    case 0: { V c((size_t)n, li); given(c, li.id, true); break; }
    case 1: { V c({1, 2, 3}, li); given(c, li.id, true); break; }
    case 2: { DQ c(li); given(c, li.id, true); break; }
    case 3: { DQ c({1, 2, 3}, li); given(c, li.id, true); break; }
    case 4: { ST c(lc); given(c, lc.id, true); CHECK(c.get_allocator().id == lc.id); break; }
    case 5: { ST c(s, n, lc); given(c, lc.id, true); break; }
    case 6: { ST c(s + n, lc); given(c, lc.id, true); break; }
    case 7: { ST c(In{s}, In{s + n}, lc); given(c, lc.id, true); break; }
    case 8: { LI c; int id = c.get_allocator().id; given(c, id, true); FL f; given(f, f.get_allocator().id, true); break; }
    } obs(gOut); }
  CHECKM(gOut == 0, "every block is returned to its allocator"); DONE();
}
// sizes across reallocation and chunk boundaries
template <class C> static void grow(unsigned n) { { C c, d; for (unsigned i = 0; i < n; ++i) Ops<C>::put(c, (int)i); owned(c); d = c; C e(d); owned(d); owned(e); for (unsigned i = 0; i < n / 2; ++i) { Ops<C>::drop(c); } owned(c); c = e; owned(c); d.clear(); obs(gOut); } CHECKM(gOut == 0, "every block is returned to its allocator"); DONE(); }
SX_HARNESS(g01_grow) { unsigned n = split("n", 40); switch (split("kind", 7)) { case 0: grow<V>(n); break; case 1: grow<VT>(n); break; case 2: grow<LI>(n); break; case 3: grow<FL>(n); break; case 4: grow<SE>(n); break; case 5: grow<MA>(n); break; case 6: grow<ST>(n); break; } CHECK(gLive == 0); }
SX_HARNESS(g01_chunks) { unsigned n = split("chunk", W + 1) * 512 + split("off", 7); { DQ a, b; bool f = split("front", 2); for (unsigned i = 0; i < n; ++i) if (f) a.push_front((int)i); else a.push_back((int)i); b = a; DQ c(b); const DQ &ca = a, &cb = b; for (auto *q : {&ca, &cb}) { if (n) { CHECK(entryOf(&q->front()) >= 0); CHECK(entryOf(&q->back()) >= 0); } } while (!b.empty()) { if (split("end", 2)) { for (int i = 0; i < 300; ++i) b.pop_front(); } else for (int i = 0; i < 300; ++i) b.pop_back(); } b.push_back(1); CHECK(entryOf(&b.front()) >= 0); obs(gOut); } CHECKM(gOut == 0, "every block is returned to its allocator"); DONE(); }
