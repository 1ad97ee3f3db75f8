// Reference model: a finite sequence of ints held in a plain array.
#pragma once
#include "sx.h"
#ifndef MAXN
#define MAXN 96
#endif
struct Seq {
  int a[MAXN]; int n = 0;
  Seq() {}
  Seq(const Seq &o) { n = o.n; for (int i = 0; i < n; ++i) a[i] = o.a[i]; }
  Seq &operator=(const Seq &o) { n = o.n; for (int i = 0; i < n; ++i) a[i] = o.a[i]; return *this; }
  void push_back(int x) { a[n++] = x; }
  void pop_back() { --n; }
  void push_front(int x) { insert(0, x); }
  void pop_front() { erase(0, 1); }
  void insert(int p, int x) { for (int i = n; i > p; --i) a[i] = a[i - 1]; a[p] = x; ++n; }
  void erase(int i, int j) { for (int q = j; q < n; ++q) a[i + q - j] = a[q]; n -= j - i; }
  void clear() { n = 0; }
  void resize(int k) { while (n < k) a[n++] = 0; n = k; }
};
// conjunction without branching
static inline bool both(bool a, bool b) { return (unsigned)a & (unsigned)b; }
static inline bool either(bool a, bool b) { return (unsigned)a | (unsigned)b; }
