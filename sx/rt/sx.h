// Harness interface. The same harness source is (1) compiled to LLVM IR and executed symbolically by the
// engine in sx/engine, and (2) compiled natively (SX_NATIVE) with sanitizers to replay counterexamples and
// to cross-check sampled paths.
#pragma once
// K01: the library (and the standard headers it uses) compiled as it behaves inside a constant expression.
#ifdef SX_ICE
#define __builtin_is_constant_evaluated() true
#define SX_OUTPUT(...) ((void)0)   // in constant evaluation nothing is output
#define SX_PRINTF_RESULT(c, m) ((void)(c))
#else
#define SX_OUTPUT(...) sx_expect(__VA_ARGS__)
#define SX_PRINTF_RESULT(c, m) CHECKM(c, m)
#endif
#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>
extern "C" {
uint64_t sx_sym(const char *name, unsigned bits);       // fresh symbolic value
uint64_t sx_choose_(const char *name, uint64_t n);      // fresh symbolic value < n, case split
void sx_assume_(unsigned c);
void sx_assert_(unsigned c, const char *msg);
void sx_fail(const char *msg);
void sx_observe(uint64_t v);                            // value compared between engine and native replay
void sx_cover(const char *label);                       // reachability witness
uint64_t sx_heap_live(void);                            // heap blocks live
uint64_t sx_concretize(uint64_t v);
void sx_known(const char *id);                          // following failures are the named known finding ("" = none)
void sx_expect(int stream, int kind, uint64_t v);       // expected output: stream 0 cout 1 cerr 2 clog 3 stdout; kind 'c','i','d'
int sx_expect_match(void);
}
#ifdef SX_NATIVE
struct sx_reg { sx_reg(const char *n, void (*f)()); };
#define SX_HARNESS(name) extern "C" void name(); static sx_reg sx_reg_##name(#name, name); extern "C" void name()
#else
#define SX_HARNESS(name) extern "C" void name()
#endif
#define SX_ASSERT(c, msg) sx_assert_((c) ? 1u : 0u, msg)
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define CHECK(c) sx_assert_((unsigned)(bool)(c), #c)
#define CHECKM(c, m) sx_assert_((unsigned)(bool)(c), m)
#define DONE() sx_cover("done")
static inline void assume(bool c) { sx_assume_(c); }
// a symbolic value below k; the code under test (and the harness' dispatch on it) forks on it, the solver deciding which ways are possible
static inline unsigned choose(const char *n, unsigned k) { unsigned v = (unsigned)sx_sym(n, 32); sx_assume_(v < k); return v; }
// the same, split into its k cases at once (deeper histories)
static inline unsigned split(const char *n, unsigned k) { return (unsigned)sx_choose_(n, k); }
#ifdef SX_SYM
#define pick choose
#else
#define pick split
#endif
static inline int symInt(const char *n) { return (int)sx_sym(n, 32); }
static inline unsigned symUInt(const char *n) { return (unsigned)sx_sym(n, 32); }
static inline uint64_t symU64(const char *n) { return sx_sym(n, 64); }
static inline char symChar(const char *n) { return (char)sx_sym(n, 8); }
static inline short symShort(const char *n) { return (short)sx_sym(n, 16); }
static inline bool symBool(const char *n) { return sx_sym(n, 1) != 0; }
static inline double symDouble(const char *n) { uint64_t u = sx_sym(n, 64); double d; __builtin_memcpy(&d, &u, 8); return d; }
static inline float symFloat(const char *n) { uint32_t u = (uint32_t)sx_sym(n, 32); float d; __builtin_memcpy(&d, &u, 4); return d; }
static inline uint64_t bitsOf(double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); return u; }
static inline uint32_t bitsOf(float d) { uint32_t u; __builtin_memcpy(&u, &d, 4); return u; }
static inline void obs(uint64_t v) { sx_observe(v); }
static inline void obsD(double v) { sx_observe(bitsOf(v)); }

// An element type that checks its own lifetime: every live object owns one heap block that names it as owner,
// so a missed destruction leaks, a second destruction is a double free, a bitwise copy is noticed on use, and use of a
// dead or never constructed object is a bad access. gLive counts live objects.
struct Tracked;
struct TrackedBlk { const Tracked *owner; int v; };
inline long gLive = 0, gCtor = 0, gDtor = 0;
struct Tracked {
  TrackedBlk *b;
  Tracked() : b(new TrackedBlk{this, 0}) { ++gLive; ++gCtor; }
  Tracked(int x) : b(new TrackedBlk{this, x}) { ++gLive; ++gCtor; }
  Tracked(const Tracked &o) : b(new TrackedBlk{this, o.get()}) { ++gLive; ++gCtor; }
  Tracked(Tracked &&o) : b(new TrackedBlk{this, o.get()}) { o.b->v = -1; ++gLive; ++gCtor; }
  Tracked &operator=(const Tracked &o) { int x = o.get(); chk(); b->v = x; return *this; }
  Tracked &operator=(Tracked &&o) { int x = o.get(); chk(); if (this != &o) o.b->v = -1; b->v = x; return *this; }
  ~Tracked() { chk(); delete b; --gLive; ++gDtor; }
  void chk() const { CHECKM(b->owner == this, "element storage is used without the element having been constructed there"); }
  int get() const { chk(); return b->v; }
  friend bool operator==(const Tracked &a, const Tracked &c) { return a.get() == c.get(); }
  friend bool operator!=(const Tracked &a, const Tracked &c) { return a.get() != c.get(); }
  friend bool operator<(const Tracked &a, const Tracked &c) { return a.get() < c.get(); }
};
static inline int val(int x) { return x; }
static inline int val(const Tracked &t) { return t.get(); }
