// Histories of iterator operations on a fixed container: two iterators a and b, their positions i and j known to the model.
#pragma once
#include "sx.h"
#include <iterator>
// addr(p) is the address of the element at position p; n the number of elements
template <class It, bool BACK, bool RANDOM, class Addr> static void walk(It first, It last, int n, Addr addr, bool atEnd, unsigned steps) {
  It a = atEnd ? last : first, b = first; int i = atEnd ? n : 0, j = 0;
  for (unsigned k = 0; k < steps; ++k) {
    switch (pick("step", BACK ? 8 : 5)) {
    case 0: { assume(i < n); auto &r = ++a; CHECKM(&r == &a, "++ returns the iterator"); ++i; break; }
    case 1: assume(i < n); b = a++; j = i++; break;
    case 2: b = a; j = i; break;
    case 3: { It t(a); a = b; b = t; int u = i; i = j; j = u; break; }
    case 4: b = last; j = n; break;
    case 5: if constexpr (BACK) { assume(i > 0); auto &r = --a; CHECKM(&r == &a, "-- returns the iterator"); --i; } break;
    case 6: if constexpr (BACK) { assume(i > 0); b = a--; j = i--; } break;
    case 7: a = first; i = 0; break;
    }
    if (i < n) { CHECKM(&*a == addr(i), "the iterator refers to the element at its position"); CHECK(a.operator->() == &*a); }
    if (j < n) CHECKM(&*b == addr(j), "a stored iterator refers to the element at its position");
    CHECKM((a == b) == (i == j), "iterators are equal exactly at the same position"); CHECKM((a != b) == (i != j), "!= is the opposite of =="); CHECKM((a == last) == (i == n), "end() is reached exactly after the last element"); CHECK((first == b) == (j == 0));
    if constexpr (RANDOM) { CHECKM(a - b == i - j, "the difference of iterators is the difference of positions"); CHECK(b - a == j - i); CHECK(last - a == n - i); }
    obs((unsigned)(i * 8192 + j));
  }
}
