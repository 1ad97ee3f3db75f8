#include "sx.h"
#include "cest/memory.hpp"
#include "cest/functional.hpp"
#include <utility>
#include "bounds.h"
#ifndef K
#define K 3
#endif
static inline bool both(bool a, bool b) { return (unsigned)a & (unsigned)b; }
// ---------------------------------------------------------------- unique_ptr
struct Obj;
static int gDead[64], gNext; static cest::unique_ptr<Obj> *gWatch; static Obj *gSeen;
struct Base { int id, v; Base(int x) : id(gNext++), v(x) {} virtual int who() const { return 1; } virtual ~Base() { ++gDead[id]; } };
struct Obj { int id, v; Tracked t; Obj(int x) : id(gNext++), v(x), t(x) {} Obj(int x, int y) : Obj(x) { v = y; } ~Obj() { ++gDead[id]; if (gWatch) gSeen = gWatch->get(); } };
struct Derived : Base { Tracked t; Derived(int x) : Base(x), t(x) {} int who() const override { return 2; } };
using UP = cest::unique_ptr<Obj>;
#define NS 3
struct UModel { Obj *p[NS]; int id[NS], v[NS]; bool dead[64]; };
static void uCheck(UP *s, UModel &m) {
  for (int i = 0; i < NS; ++i) { const UP &c = s[i]; CHECKM(s[i].get() == m.p[i], "get() is the pointer held"); CHECK((bool)s[i] == (m.p[i] != nullptr)); if (m.p[i]) { CHECK(&*s[i] == m.p[i]); CHECK(&*c == m.p[i]); CHECK(s[i]->v == m.v[i]); CHECK((*c).t.get() == s[i]->t.get()); } }
  for (int i = 0; i < gNext; ++i) CHECKM(gDead[i] == (m.dead[i] ? 1 : 0), "each object is deleted exactly once, when its last owner gives it up");
  for (int i = 0; i < NS; ++i) for (int j = 0; j < NS; ++j) { CHECK((s[i] == s[j]) == (m.p[i] == m.p[j])); CHECK((s[i] != s[j]) == (m.p[i] != m.p[j])); CHECK((s[i] < s[j]) == (m.p[i] < m.p[j])); CHECK((s[i] <= s[j]) == (m.p[i] <= m.p[j])); CHECK((s[i] > s[j]) == (m.p[i] > m.p[j])); CHECK((s[i] >= s[j]) == (m.p[i] >= m.p[j])); }
}
static void drop(UModel &m, int i) { if (m.p[i]) m.dead[m.id[i]] = true; m.p[i] = nullptr; }
static void put(UModel &m, int i, Obj *p, int v) { m.p[i] = p; m.id[i] = p->id; m.v[i] = v; }
SX_HARNESS(u01_hist) {
  {
    UP s[NS]; UModel m{}; gNext = 0; uCheck(s, m);
    for (unsigned k = 0; k < K; ++k) {
      unsigned op = pick("op", 9), i = pick("i", NS), j = op == 1 || op == 2 || op == 7 ? pick("j", NS) : 0;
      switch (op) {
      case 0: { int x = symInt("x"); Obj *o = new Obj(x); gWatch = &s[i]; gSeen = nullptr; bool had = m.p[i]; s[i].reset(o); gWatch = nullptr; if (had) CHECKM(gSeen == o, "reset replaces the pointer before deleting the old object"); drop(m, i); put(m, i, o, x); break; }
      case 1: { UP &r = (s[i] = std::move(s[j])); CHECK(&r == &s[i]); if (i != j) { Obj *p = m.p[j]; int id = m.id[j], v = m.v[j]; drop(m, i); m.p[i] = p; m.id[i] = id; m.v[i] = v; m.p[j] = nullptr; } break; }
      case 2: { UP t(std::move(s[j])); CHECKM(!s[j], "a moved-from pointer is null"); CHECK(t.get() == m.p[j]); if (i != j) { s[i] = std::move(t); CHECK(!t); Obj *p = m.p[j]; int id = m.id[j], v = m.v[j]; drop(m, i); m.p[i] = p; m.id[i] = id; m.v[i] = v; m.p[j] = nullptr; } else drop(m, j); break; }
      case 3: { Obj *r = s[i].release(); CHECKM(r == m.p[i], "release returns the pointer held"); CHECKM(!s[i], "a released pointer is null"); if (r) CHECKM(gDead[r->id] == 0, "release deletes nothing"); UP t(r); CHECK(t.get() == r); drop(m, i); break; }
      case 4: { gWatch = &s[i]; gSeen = (Obj *)&m; bool had = m.p[i]; s[i].reset(); gWatch = nullptr; if (had) CHECKM(gSeen == nullptr, "reset replaces the pointer before deleting the old object"); drop(m, i); break; }
      case 5: { int x = symInt("x"), y = symInt("y"); s[i] = cest::make_unique<Obj>(x, y); Obj *o = s[i].get(); CHECK(o->t.get() == x); drop(m, i); put(m, i, o, y); break; }
      case 6: s[i] = UP(); drop(m, i); break;
      case 7: { assume(i != j); Obj *a = s[i].release(); s[i].reset(s[j].release()); s[j].reset(a); Obj *p = m.p[i]; int id = m.id[i], v = m.v[i]; m.p[i] = m.p[j]; m.id[i] = m.id[j]; m.v[i] = m.v[j]; m.p[j] = p; m.id[j] = id; m.v[j] = v; break; }
      case 8: { if (m.p[i]) { int x = symInt("x"); s[i]->v = x; CHECK((*s[i]).v == x); m.v[i] = x; } UP t(m.p[i] ? new Obj(4) : nullptr); if (t) m.dead[gNext - 1] = true; break; }
      }
      uCheck(s, m);
    }
    obs(gNext);
  }
  for (int i = 0; i < gNext; ++i) CHECKM(gDead[i] == 1, "every object is deleted exactly once"); CHECK(gLive == 0); DONE();
}
SX_HARNESS(u01_derived) {
  {
    int x = symInt("x"), y = symInt("y"); cest::unique_ptr<Derived> d(new Derived(x)); Derived *raw = d.get(); cest::unique_ptr<Base> b(std::move(d)); CHECK(!d); CHECK(b.get() == raw); CHECK(b->who() == 2); CHECK(b->v == x); CHECK(gDead[0] == 0);
    b = cest::make_unique<Derived>(y); CHECKM(gDead[0] == 1, "the old object is deleted by assignment"); CHECK(b->v == y); cest::unique_ptr<Derived> e(new Derived(3)); b = std::move(e); CHECK(!e); CHECK(gDead[1] == 1); CHECK(gDead[2] == 0); CHECK((*b).who() == 2); if (pick("how", 2)) b.reset(); else b = cest::unique_ptr<Base>(new Base(7)); CHECK(gDead[2] == 1);
    cest::unique_ptr<int> i = cest::make_unique<int>(x); CHECK(*i == x); *i = y; CHECK(*i.get() == y); cest::unique_ptr<const int> ci(new int(x)); CHECK(*ci == x); cest::unique_ptr<int> n(nullptr); CHECK(!n); CHECK(n.release() == nullptr); n.reset(new int(5)); CHECK(n); CHECK(!(n == i)); auto z = std::move(n); CHECK(!n); CHECK(*z == 5);
  }
  CHECK(gLive == 0); DONE();
}
// a chain of owners: deleting the head deletes each node once, in order
struct Node { int v; cest::unique_ptr<Node> next; Tracked t; Node(int x) : v(x), t(x) {} };
SX_HARNESS(u01_chain) {
  { cest::unique_ptr<Node> head; int a[5], n = 1 + (int)pick("n", 4); for (int i = 0; i < n; ++i) { a[i] = symInt("v"); cest::unique_ptr<Node> h = cest::make_unique<Node>(a[i]); h->next = std::move(head); head = std::move(h); } CHECK(gLive == n); int c = n; for (Node *p = head.get(); p; p = p->next.get()) { --c; CHECK(p->v == a[c]); } CHECK(c == 0);
    unsigned cut = pick("cut", 4); if ((int)cut < n) { // head = std::move(head->next): the object owning the source goes away
      head = std::move(head->next); CHECKM(gLive == n - 1, "popping the head deletes one node"); if (n > 1) CHECK(head->v == a[n - 2]); else CHECK(!head); } }
  CHECK(gLive == 0); DONE();
}
// ---------------------------------------------------------------- shared_ptr
struct SObj { int v; Tracked t; SObj(int x) : v(x), t(x) {} };
#define NG 32
static int gRan[NG], gGroups; static SObj *gOrig[NG];
struct Del { int g; Tracked state; Del(int gg) : g(gg), state(gg) {} void operator()(SObj *p) { CHECKM(state.get() == g, "the deleter called is the one stored"); ++gRan[g]; CHECKM(p == gOrig[g], "the deleter runs on the original pointer"); delete p; } };
struct Del2 { int g; void operator()(SObj *p) const { ++gRan[g]; CHECKM(p == gOrig[g], "the deleter runs on the original pointer"); delete p; } };
struct Watched { int g; SObj o; };
using SP = cest::shared_ptr<SObj>;
#define NP 3
struct SModel { int g[NP]; SObj *p[NP]; int kind[NG]; };
static int users(const SModel &m, int g) { int n = 0; for (int i = 0; i < NP; ++i) n += m.g[i] == g; return n; }
static void sCheck(SP *s, SModel &m) {
  for (int i = 0; i < NP; ++i) {
    CHECKM(s[i].use_count() == (m.g[i] < 0 ? 0 : users(m, m.g[i])), "use_count() is the number of owners"); CHECKM(s[i].get() == m.p[i], "get() is the stored pointer"); CHECK((bool)s[i] == (m.p[i] != nullptr)); CHECK(s[i].operator->() == m.p[i]); if (m.p[i]) { CHECK(&*s[i] == m.p[i]); CHECKM(m.p[i]->v == m.p[i]->t.get(), "the object is alive"); }
    if (m.g[i] >= 0) { auto d = get_deleter<Del>(s[i]); CHECKM((d != nullptr) == (m.kind[m.g[i]] == 1), "get_deleter finds exactly the stored deleter type"); if (d) CHECK(d->g == m.g[i]); auto e = get_deleter<Del2>(s[i]); CHECK((e != nullptr) == (m.kind[m.g[i]] == 2)); if (e) CHECK(e->g == m.g[i]); }
    else CHECK(get_deleter<Del>(s[i]) == nullptr);
  }
  for (int g = 0; g < gGroups; ++g) if (m.kind[g]) CHECKM(gRan[g] == (users(m, g) ? 0 : 1), "the deleter runs exactly once, when the last owner goes away");
}
SX_HARNESS(u02_hist) {
  {
    SP s[NP]; SModel m{}; for (int i = 0; i < NP; ++i) m.g[i] = -1; sCheck(s, m);
    for (unsigned k = 0; k < K; ++k) {
      unsigned op = pick("op", 9), i = pick("i", NP), j = op == 2 || op == 3 || op == 4 || op == 8 ? pick("j", NP) : 0;
      switch (op) {
      case 0: { int x = symInt("x"); SObj *o = new SObj(x); s[i] = SP(o); int g = gGroups++; m.kind[g] = 0; m.g[i] = g; m.p[i] = o; break; }
      case 1: { SObj *o = new SObj(symInt("x")); int g = gGroups++; gOrig[g] = o; m.kind[g] = 1; s[i] = SP(o, Del(g)); m.g[i] = g; m.p[i] = o; break; }
      case 2: { SP &r = s[i]; r = s[j]; m.g[i] = m.g[j]; m.p[i] = m.p[j]; break; }
      case 3: { SP c(s[j]); CHECKM(c.use_count() == (m.g[j] < 0 ? 0 : users(m, m.g[j]) + 1), "a copy shares ownership"); CHECK(c.get() == m.p[j]); SP d(c); CHECK(s[j].use_count() == (m.g[j] < 0 ? 0 : users(m, m.g[j]) + 2)); d = s[i]; CHECK(d.get() == m.p[i]); c = d; CHECK(c.use_count() == d.use_count()); break; }
      case 4: { SObj *q = m.p[i] && m.g[i] >= 0 ? m.p[i] : nullptr; SP a(s[j], q); CHECKM(a.get() == q, "an alias stores the pointer it is given"); CHECKM(a.use_count() == (m.g[j] < 0 ? 0 : users(m, m.g[j]) + 1), "an alias shares ownership"); SP b(a); CHECK(b.get() == q); CHECK(b.use_count() == s[j].use_count()); break; }
      case 5: { s[i] = pick("empty", 2) ? SP() : SP(nullptr); m.g[i] = -1; m.p[i] = nullptr; break; }
      case 6: { int g = gGroups++; gOrig[g] = nullptr; m.kind[g] = 2; s[i] = SP((SObj *)nullptr, Del2{g}); m.g[i] = g; m.p[i] = nullptr; break; }
      case 7: { SObj *o = new SObj(symInt("x")); int g = gGroups++; gOrig[g] = o; m.kind[g] = 2; { SP t(o, Del2{g}); CHECK(gRan[g] == 0); s[i] = t; CHECK(t.use_count() == 2); } m.g[i] = g; m.p[i] = o; break; }
      case 8: { // keep the pointer of j but own what i owns (aliasing assignment)
        SObj *q = m.p[j]; if (m.g[i] != m.g[j]) q = nullptr; s[i] = SP(s[i], q); m.p[i] = q; break; }
      }
      sCheck(s, m);
    }
    obs(gGroups);
  }
  CHECKM(gLive == 0, "every object and deleter is destroyed exactly once"); DONE();
}
// ownership through a member: the object outlives its named owners as long as a pointer into it is held
struct Pair { SObj a, b; Pair(int x, int y) : a(x), b(y) {} };
SX_HARNESS(u02_derived) {
  {
    struct B { int v; B(int x) : v(x) {} int get() const { return v; } }; struct D : B { Tracked t; D(int x) : B(x), t(x) {} }; // no virtual destructor: must be deleted as D
    int x = symInt("x"); cest::shared_ptr<B> p(new D(x)); CHECK(p->get() == x); cest::shared_ptr<B> q(p); CHECK(q.use_count() == 2); p = cest::shared_ptr<B>(); CHECK(gLive == 1); CHECK(q.use_count() == 1); unsigned how = pick("how", 3); if (how == 0) q = p; else if (how == 1) q = cest::shared_ptr<B>(new D(3)); CHECKM(gLive == (how == 0 ? 0 : 1), "the derived object is destroyed as what it is");
    struct DD { int id; void operator()(D *d) const { CHECK(id == 9); delete d; } }; cest::shared_ptr<B> r(new D(4), DD{9}); auto f = get_deleter<DD>(r); CHECKM(f != nullptr, "get_deleter returns the stored deleter"); CHECK(f->id == 9); q = r; CHECK(r.use_count() == 2); CHECK(get_deleter<DD>(q) == f); r = cest::shared_ptr<B>(); CHECK(q->v == 4); CHECK(get_deleter<DD>(r) == nullptr);
  }
  CHECK(gLive == 0); DONE();
}
static int gArr; static void arrDel(Tracked *p) { ++gArr; delete[] p; }
SX_HARNESS(u02_array) {
  {
    unsigned n = 1 + pick("n", 4); Tracked *raw = new Tracked[n]; cest::shared_ptr<Tracked[]> a(raw); for (unsigned i = 0; i < n; ++i) { int x = symInt("x"); a[i] = Tracked(x); CHECK(raw[i].get() == x); CHECK(&a[i] == raw + i); } cest::shared_ptr<Tracked[]> b(a), c; CHECK(a.use_count() == 2); c = b; CHECK(c.use_count() == 3); CHECK(&c[n - 1] == &a[n - 1]); a = cest::shared_ptr<Tracked[]>(); b = a; CHECK(c.use_count() == 1); CHECK(gLive == (long)n); CHECK(c.get() == raw);
    Tracked *raw2 = new Tracked[2]; cest::shared_ptr<Tracked[]> d(raw2, arrDel); auto f = get_deleter<void (*)(Tracked *)>(d); CHECK(f != nullptr); CHECK(*f == arrDel); c = d; CHECKM(gLive == 2, "arrays are deleted as arrays"); d = cest::shared_ptr<Tracked[]>(nullptr); CHECK(gArr == 0); c = d; CHECK(gArr == 1); cest::shared_ptr<int[]> e(new int[3]{1, 2, 3}); CHECK(e[2] == 3);
  }
  CHECK(gLive == 0); DONE();
}
// a container of shared pointers and cycles of assignment through a chain
struct SNode { int v; cest::shared_ptr<SNode> next; Tracked t; SNode(int x) : v(x), t(x) {} };
SX_HARNESS(u02_chain) {
  { using P = cest::shared_ptr<SNode>; P head, keep; unsigned n = 1 + pick("n", 4), at = pick("keep", 4); int a[5]; for (unsigned i = 0; i < n; ++i) { a[i] = symInt("v"); P h(new SNode(a[i])); h->next = head; head = h; CHECK(head.use_count() == 2); if (i == at) keep = head; }
    for (unsigned i = n; i > 0; --i) { CHECK(head->v == a[i - 1]); CHECK(head.use_count() == (at < n && at >= i - 1 ? 2 : 1)); head = head->next; CHECKM(gLive == (long)(at < n && at + 1 > i - 1 ? at + 1 : i - 1), "dropping the head releases exactly what nobody else holds"); if (i > 1) CHECK(head->v == a[i - 2]); } CHECK(!head); if (at < n) CHECK(keep->v == a[at]); }
  CHECK(gLive == 0); DONE();
}
// many owners
#include "huge.h"
SX_HARNESS(u02_huge) {
  {
    const unsigned n = hugeN(7); SObj *o = new SObj(symInt("x")); int g = gGroups++; gOrig[g] = o; bool al = split("alias", 2); SP *s = new SP[n]; s[0] = SP(o, Del2{g}); bool ok = true; for (unsigned i = 1; i < n; ++i) { if (al && i % 3 == 0) { SP t(s[i / 2], nullptr); s[i] = SP(t, o); } else s[i] = s[i / 2]; ok = both(ok, s[i].use_count() == (long)i + 1); ok = both(ok, s[i].get() == o); } CHECKM(ok, "use_count() is the number of owners"); CHECK(s[0].use_count() == (long)n);
    for (unsigned i = 0; i + 1 < n; ++i) { s[i] = SP(); ok = both(ok, gRan[g] == 0); ok = both(ok, s[n - 1].use_count() == (long)(n - 1 - i)); } CHECKM(ok, "the deleter runs not before the last owner goes away"); SP last(s[n - 1]); delete[] s; CHECK(gRan[g] == 0); CHECK(last.use_count() == 1); last = SP(); CHECK(gRan[g] == 1);
  }
  CHECK(gLive == 0); DONE();
}
// ---------------------------------------------------------------- function
struct Counter { Tracked c; int calls; int add; Counter(int a) : c(a), calls(0), add(a) {} int operator()(int x, int y) { ++calls; c = Tracked(add); return (int)((unsigned)x * 3u - (unsigned)y + (unsigned)add + (unsigned)calls * 1000u); } };
static int plainF(int x, int y) { return (int)((unsigned)x - 2u * (unsigned)y); }
using FR = cest::function<int(int, int)>; using F2 = FR;
struct FModel { int kind, add, calls; }; // kind 0 plain, 1 counter, 2 lambda, 3 none (moved from)
static int expect(FModel &m, int x, int y) { ++m.calls; switch (m.kind) { case 0: return (int)((unsigned)x - 2u * (unsigned)y); case 1: return (int)((unsigned)x * 3u - (unsigned)y + (unsigned)m.add + (unsigned)m.calls * 1000u); default: return (int)((unsigned)m.add ^ (unsigned)x ^ ((unsigned)y << 1)); } }
template <class F> static F make(unsigned kind, int add) { if (kind == 0) return F(plainF); if (kind == 1) return F(Counter(add)); return F([add](int x, int y) { return (int)((unsigned)add ^ (unsigned)x ^ ((unsigned)y << 1)); }); }
struct Categories { int operator()(Tracked &&t) { Tracked u(std::move(t)); return u.get(); } int operator()(const Tracked &t) { return (int)((unsigned)t.get() + 1u); } };
template <class F2> static void fhist() {
  {
    unsigned k0 = pick("k0", 3), k1 = pick("k1", 3); int a0 = symInt("a0"), a1 = symInt("a1"); F2 f[2] = {make<F2>(k0, a0), make<F2>(k1, a1)}; FModel m[2] = {{(int)k0, a0, 0}, {(int)k1, a1, 0}};
    for (unsigned k = 0; k < K; ++k) {
      unsigned i = pick("i", 2); int x = symInt("x"), y = symInt("y");
      switch (pick("op", 7)) {
      case 0: assume(m[i].kind < 3); CHECKM(f[i](x, y) == expect(m[i], x, y), "a call returns what the stored callable returns for these arguments"); break;
      case 1: { assume(m[i].kind < 3); F2 c(f[i]); FModel mc = m[i]; CHECKM(c(x, y) == expect(mc, x, y), "a copy behaves as the original"); CHECK(c(y, x) == expect(mc, y, x)); CHECKM(f[i](x, y) == expect(m[i], x, y), "calling a copy does not change the original"); break; }
      case 2: { F2 &r = (f[i] = f[1 - i]); CHECK(&r == &f[i]); m[i] = m[1 - i]; break; }
      case 3: f[i] = f[i]; break;
      case 4: { unsigned kk = pick("kk", 3); f[i] = make<F2>(kk, x); m[i] = {(int)kk, x, 0}; break; }
      case 5: f[i] = std::move(f[1 - i]); m[i] = m[1 - i]; m[1 - i].kind = 3; break;
      case 6: { F2 t(std::move(f[i])); FModel mt = m[i]; if (mt.kind < 3) CHECKM(t(x, y) == expect(mt, x, y), "moving keeps the callable"); f[i] = std::move(t); m[i] = mt; break; }
      }
    }
    int x = symInt("lx"), y = symInt("ly"); for (int i = 0; i < 2; ++i) if (m[i].kind < 3) { CHECKM(f[i](x, y) == expect(m[i], x, y), "a call returns what the stored callable returns for these arguments"); CHECKM(f[i](y, x) == expect(m[i], y, x), "state persists between calls"); }
    obs(m[0].calls);
  }
  CHECKM(gLive == 0, "every stored callable is destroyed exactly once"); DONE();
}
SX_HARNESS(f01_hist) { fhist<FR>(); }
// the specialisation for functions returning nothing: the callables leave their result in a variable
static int gRes;
struct VCounter { Counter c; VCounter(int a) : c(a) {} void operator()(int x, int y) { gRes = c(x, y); } };
static void plainV(int x, int y) { gRes = plainF(x, y); }
struct FV { // gives a function<void(int, int)> the interface of function<int(int, int)>
  cest::function<void(int, int)> f; FV(cest::function<void(int, int)> g) : f(g) {}
  FV(const FV &) = default; FV(FV &&) = default; FV &operator=(const FV &o) { auto &r = (f = o.f); CHECK(&r == &f); return *this; } FV &operator=(FV &&o) { auto &r = (f = std::move(o.f)); CHECK(&r == &f); return *this; }
  int operator()(int x, int y) { gRes = 0; f(x, y); return gRes; } };
template <> FV make<FV>(unsigned kind, int add) { using F = cest::function<void(int, int)>; if (kind == 0) return FV(F(plainV)); if (kind == 1) return FV(F(VCounter(add))); return FV(F([add](int x, int y) { gRes = (int)((unsigned)add ^ (unsigned)x ^ ((unsigned)y << 1)); })); }
SX_HARNESS(f01_void) { fhist<FV>(); }
struct VCategories { void operator()(Tracked &&t) { gRes = Categories{}(std::move(t)); } void operator()(const Tracked &t) { gRes = Categories{}(t); } };
SX_HARNESS(f01_vargs) { // argument categories of functions returning nothing
  {
    int x = symInt("x"), y = symInt("y"); cest::function<void(int &)> ref([](int &r) { r = (int)((unsigned)r + 1u); }); int v = x; ref(v); CHECKM(v == (int)((unsigned)x + 1u), "references are passed as they are");
    Tracked tr(x); const Tracked *seen = nullptr; cest::function<void(const Tracked &, Tracked *)> cr([&seen](const Tracked &t, Tracked *p) { seen = &t; *p = Tracked(t.get()); }); Tracked o(y); cr(tr, &o); CHECKM(seen == &tr, "const references are passed as they are"); CHECK(o.get() == x);
    int got = 0; cest::function<void(Tracked)> bv([&got](Tracked t) { got = t.get(); }); bv(tr); CHECKM(got == x, "class arguments are passed by value"); CHECKM(tr.get() == x, "the argument passed by value is not altered"); bv(Tracked(y)); CHECK(got == y);
    cest::function<void(Tracked &&)> rv(VCategories{}); Tracked src(y); rv(std::move(src)); CHECKM(gRes == y, "an rvalue reference arrives as an rvalue"); CHECKM(src.get() == -1, "an rvalue reference refers to the argument"); cest::function<void(Tracked)> rb(VCategories{}); rb(tr); CHECKM(gRes == x, "a parameter passed by value arrives as an rvalue"); CHECK(tr.get() == x); cest::function<void(const Tracked &)> rk(VCategories{}); rk(Tracked(y)); CHECK(gRes == (int)((unsigned)y + 1u));
    cest::function<void(Tracked &, int)> lv([](Tracked &t, int z) { t = Tracked(z); }); cest::function<void(Tracked &, int)> lv2(lv); lv2(tr, y); CHECKM(tr.get() == y, "references are passed as they are"); lv = lv2; lv(tr, x); CHECK(tr.get() == x);
    struct Seen { int n; void operator()() { ++n; } void operator()(int) const {} }; Seen sn{0}; cest::function<void()> one(sn); one(); CHECK(sn.n == 0);
  }
  CHECK(gLive == 0); DONE();
}
SX_HARNESS(f01_source) { // the callable passed in is copied, not referred to or altered
  {
    int a = symInt("a"), x = symInt("x"), y = symInt("y"); Counter src(a); long before = gLive; { F2 f(src); CHECKM(src.c.get() == a, "construction does not alter the callable passed in"); CHECK(src.calls == 0); CHECK(gLive == before + 1); int r1 = f(x, y), r2 = f(x, y); CHECK(r2 == (int)((unsigned)r1 + 1000u)); CHECKM(src.calls == 0, "calls do not alter the callable passed in"); CHECK(src.c.get() == a); src.add = 77; CHECKM(f(x, y) == (int)((unsigned)r1 + 2000u), "the callable stored is a copy"); const Counter cs(src); F2 g(cs); CHECK(g(1, 1) == (int)(2u + 77u + 1000u)); F2 h(std::move(src)); CHECK(h(1, 1) == (int)(2u + 77u + 1000u)); } CHECKM(gLive == before, "the stored copy is destroyed with the function");
  }
  CHECK(gLive == 0); DONE();
}
SX_HARNESS(f01_args) { // argument and result categories
  {
    int x = symInt("x"), y = symInt("y"); long long w = (long long)symU64("w"); short sh = symShort("sh"); bool b = symBool("b"); char ch = symChar("c");
    cest::function<int &(int &)> ref([](int &r) -> int & { r = (int)((unsigned)r + 1u); return r; }); int v = x; int &rr = ref(v); CHECKM(&rr == &v, "references are passed and returned as they are"); CHECK(v == (int)((unsigned)x + 1u));
    cest::function<void(int, int *)> vf([](int z, int *out) { *out = z; }); int out = 0; vf(y, &out); CHECKM(out == y, "arguments arrive unchanged");
    int cnt = 0; cest::function<void()> nul([&cnt] { ++cnt; }); nul(); nul(); CHECK(cnt == 2); cest::function<void()> nul2(nul); nul2(); CHECK(cnt == 3);
    cest::function<long long(char, short, long long, bool, unsigned)> many([](char a1, short a2, long long a3, bool a4, unsigned a5) { return (long long)((unsigned long long)a1 + 3ull * (unsigned long long)a2 + 5ull * (unsigned long long)a3 + 7ull * a4 + 11ull * a5); }); CHECK(many(ch, sh, w, b, (unsigned)y) == (long long)((unsigned long long)ch + 3ull * (unsigned long long)sh + 5ull * (unsigned long long)w + 7ull * b + 11ull * (unsigned)y));
    cest::function<int(Tracked)> byval([](Tracked t) { return t.get(); }); Tracked tr(x); CHECKM(byval(tr) == x, "class arguments are passed by value"); CHECKM(tr.get() == x, "the argument passed by value is not altered"); CHECK(byval(Tracked(y)) == y);
    cest::function<int(const Tracked &)> cref([&tr](const Tracked &t) { return &t == &tr ? t.get() : -1; }); CHECK(cref(tr) == x);
    cest::function<Tracked(int)> ret([](int z) { return Tracked(z); }); Tracked got = ret(y); CHECKM(got.get() == y, "the result is returned unchanged");
    cest::function<int(Tracked &&)> rv(Categories{}); Tracked src(y); CHECKM(rv(std::move(src)) == y, "an rvalue reference arrives as an rvalue"); CHECK(src.get() == -1); cest::function<int(Tracked)> rb(Categories{}); CHECKM(rb(tr) == x, "a parameter passed by value arrives as an rvalue"); CHECK(tr.get() == x); cest::function<int(Tracked &)> rl(Categories{}); CHECKM(rl(tr) == (int)((unsigned)x + 1u), "an lvalue reference arrives as an lvalue"); CHECK(tr.get() == x); cest::function<int(const Tracked &)> rk(Categories{}); CHECK(rk(tr) == (int)((unsigned)x + 1u)); CHECK(rk(Tracked(y)) == (int)((unsigned)y + 1u));
    cest::function dg(plainF); CHECK(dg(x, y) == plainF(x, y)); cest::function<double(double)> dd([](double d) { return -d; }); double d = symDouble("d"); assume(d == d); CHECK(bitsOf(dd(d)) == bitsOf(-d)); CHECK(gLive == 3);
    cest::function<int(int)> rec([&rec](int n) { return n <= 0 ? 0 : n + rec(n - 1); }); CHECK(rec(4) == 10);
  }
  CHECK(gLive == 0); DONE();
}
