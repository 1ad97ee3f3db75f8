// I05: stream buffers and streams over a buffer written by the user.
#include "sx.h"
#include "cest/iostream.hpp"
#include "cest/sstream.hpp"
#include <ios>
#include "bounds.h"
#ifndef K
#define K 3
#endif
#ifndef N0
#define N0 4
#endif
using ib = cest::ios_base;
static const unsigned BAD = 1, EOFB = 2, FAILB = 4;
static ib::iostate bits(unsigned s) { ib::iostate r = ib::goodbit; if (s & BAD) r = r | ib::badbit; if (s & EOFB) r = r | ib::eofbit; if (s & FAILB) r = r | ib::failbit; return r; }

// a source of n characters handed over in pieces; refill number `bang` throws; `back`: pbackfail can go back over refills
template <class C> struct Src : cest::basic_streambuf<C> {
  typedef cest::basic_streambuf<C> B; typedef typename B::int_type I; typedef std::char_traits<C> T;
  C a[8]; int n = 0, first = 1, rest = 1, next = 0, refills = 0, bang = -1, syncs = 0, syncRet = 0; bool back = false, syncThrows = false;
  I underflow() override {
    if (refills++ == bang) throw 7;
    if (next == n) return T::eof();
    int k = next ? rest : first; if (k > n - next) k = n - next;
    this->setg(a + next, a + next, a + next + k); next += k; return T::to_int_type(*this->gptr());
  }
  I pbackfail(I = T::eof()) override {
    if (!back || this->gptr() == nullptr || this->gptr() == a) return T::eof();
    C *g = this->gptr() - 1; this->setg(a, g, a + next); return T::to_int_type(*g);
  }
  int sync() override { ++syncs; if (syncThrows) throw 7; return syncRet; }
};
struct Mod { int n, first, rest, b = 0, p = 0, e = 0, refills = 0, bang = -1; bool back = false, any = false;
  int fill() { if (p < e) return 1; if (refills++ == bang) return -1; if (e == n) return 0; int k = e ? rest : first; if (k > n - e) k = n - e; b = p = e; e += k; any = true; return 1; } // 0 end, -1 throws
  bool stepBack() { if (b < p) { --p; return true; } if (!back || !any || p == 0) return false; b = 0; --p; return true; }
};
template <class C> static void fresh(Src<C> &s, Mod &m, bool bang) {
  m.n = s.n = (int)pick("len", N0 + 1); for (int i = 0; i < s.n; ++i) { s.a[i] = (C)sx_sym("ch", sizeof(C) * 8); if (sizeof(C) > 1) assume(std::char_traits<C>::to_int_type(s.a[i]) != std::char_traits<C>::eof()); }
  m.first = s.first = 1 + (int)pick("first", 2); m.rest = s.rest = 1 + (int)pick("rest", 3);
  if (bang) m.bang = s.bang = (int)pick("bang", 4) - 1;
  m.back = s.back = pick("back", 2);
}
// ---- the buffer itself
template <class C> static void raw() {
  typedef std::char_traits<C> T; Src<C> s; Mod m; fresh(s, m, true);
  for (int k = 0; k < K; ++k) {
    bool th = false, mt = false; typename T::int_type got = 0, want = 0;
    switch (pick("op", 5)) {
      case 0: { try { got = s.sgetc(); } catch (int) { th = true; } int f = m.fill(); mt = f < 0; want = f > 0 ? T::to_int_type(s.a[m.p]) : T::eof(); break; }
      case 1: { try { got = s.sbumpc(); } catch (int) { th = true; } int f = m.fill(); mt = f < 0; want = f > 0 ? T::to_int_type(s.a[m.p++]) : T::eof(); break; }
      case 2: { try { got = s.snextc(); } catch (int) { th = true; } int f = m.fill(); mt = f < 0; want = T::eof(); if (f > 0) { m.p++; f = m.fill(); mt = f < 0; if (f > 0) want = T::to_int_type(s.a[m.p]); } break; }
      case 3: { try { got = s.sungetc(); } catch (int) { th = true; } want = m.stepBack() ? T::to_int_type(s.a[m.p]) : T::eof(); break; }
      case 4: { int c = (int)pick("count", N0 + 2); C buf[8]; for (int i = 0; i < 8; ++i) buf[i] = (C)(0x30 + i); C exp[8]; for (int i = 0; i < 8; ++i) exp[i] = buf[i];
        long r = -1; try { r = (long)s.sgetn(buf, c); } catch (int) { th = true; }
        int d = 0; while (d < c) { int f = m.fill(); if (f < 0) { mt = true; break; } if (!f) break; exp[d++] = s.a[m.p++]; }
        if (!th) CHECKM(r == d, "sgetn returns the number of characters it stored"); for (int i = 0; i < 8; ++i) CHECKM(buf[i] == exp[i], "sgetn stores the characters in order, across refills, and nothing else"); break; }
    }
    CHECKM(th == mt, "an exception of underflow reaches the caller"); if (!th) CHECKM(got == want, "the character at the position, or eof");
  }
  DONE();
}
SX_HARNESS(i05_raw) { raw<char>(); }
SX_HARNESS(i05_wide) { raw<wchar_t>(); }
// ---- a stream over it: delivery, state bits, gcount, exceptions of the buffer
template <class S, class C> static void stream(bool bang) {
  typedef std::char_traits<C> T; Src<C> sb; Mod m; fresh(sb, m, bang); S s(&sb); unsigned st = 0, mask = bang ? (unsigned)pick("mask", 8) : 0; long gc = 0;
  s.exceptions(bits(mask)); CHECK(s.rdbuf() == &sb);
  auto set = [&](unsigned x) { st = x; return (x & mask) ? 2 : 0; };
  for (int k = 0; k < K; ++k) {
    int th = 0, mt = 0; // 1: the buffer's own exception, 2: ios_base::failure
    switch (pick("op", 4)) {
      case 0: { C c = (C)0x5a, want = c; try { s.get(c); } catch (int) { th = 1; } catch (const std::ios_base::failure &) { th = 2; }
        gc = 0; if (st) mt = set(st | FAILB); else { int f = m.fill(); if (f > 0) { want = sb.a[m.p++]; gc = 1; } else if (!f) mt = set(EOFB | FAILB); else { st = BAD; if (mask & BAD) mt = 1; else mt = set(st | FAILB); } }
        CHECKM(c == want, "get delivers the next character of the source, and nothing when there is none"); break; }
      case 1: { int c = (int)pick("count", N0 + 2); C buf[8], exp[8]; for (int i = 0; i < 8; ++i) exp[i] = buf[i] = (C)(0x30 + i);
        try { s.read(buf, c); } catch (int) { th = 1; } catch (const std::ios_base::failure &) { th = 2; }
        gc = 0; if (st) mt = set(st | FAILB); else { int d = 0, f = 1; while (d < c) { f = m.fill(); if (f <= 0) break; exp[d++] = sb.a[m.p++]; }
          if (f < 0) { st = BAD; if (mask & BAD) mt = 1; } else { gc = d; if (d != c) mt = set(EOFB | FAILB); } }
        for (int i = 0; i < 8; ++i) CHECKM(buf[i] == exp[i], "read stores the characters in order, across refills, and nothing else"); break; }
      case 2: { try { s.unget(); } catch (int) { th = 1; } catch (const std::ios_base::failure &) { th = 2; }
        gc = 0; mt = set(st & ~EOFB); if (!mt) { if (st) mt = set(st | FAILB); else if (!m.stepBack()) mt = set(BAD); } break; }
      case 3: { s.clear(); mt = set(0); break; }
    }
    CHECKM(th == mt, "the buffer's exception passes through exactly when badbit is masked, failure exactly when a masked bit is set");
    CHECKM(s.rdstate() == bits(st), "state bits"); CHECKM(s.gcount() == gc, "gcount() is the number of characters extracted");
    obs(st); obs((uint64_t)gc);
  }
  CHECKM(sb.refills == m.refills, "the buffer is asked for more exactly when its area is used up"); DONE();
}
SX_HARNESS(i05_stream) { stream<cest::istream, char>(false); }
SX_HARNESS(i05_throw) { stream<cest::istream, char>(true); }
SX_HARNESS(i05_wstream) { stream<cest::basic_istream<wchar_t>, wchar_t>(true); }
// ---- flushing an output stream over it
SX_HARNESS(i05_flush) {
  Src<char> sb; unsigned st = 0, mask = 0; cest::ostream s(&sb); int syncs = 0;
  auto set = [&](unsigned x) { st = x; return (x & mask) ? 2 : 0; };
  for (int k = 0; k < K; ++k) {
    int th = 0, mt = 0; sb.syncThrows = false;
    switch (pick("op", 3)) {
      case 0: { unsigned r = pick("sync", 4); sb.syncRet = r == 1 ? -1 : r == 2 ? 1 : 0; sb.syncThrows = r == 3;
        try { auto &q = s.flush(); CHECK(&q == &s); } catch (int) { th = 1; } catch (const std::ios_base::failure &) { th = 2; } ++syncs;
        if (r == 1) mt = set(st | BAD); if (r == 3) { st |= BAD; mt = mask & BAD ? 1 : 0; } break; }
      case 1: { unsigned v = pick("mask", 8); try { s.exceptions(bits(v)); } catch (const std::ios_base::failure &) { th = 2; } mask = v; mt = set(st); break; }
      case 2: { s.clear(); mt = set(0); break; }
    }
    CHECKM(th == mt, "flush: the buffer's exception passes through exactly when badbit is masked, failure exactly when a masked bit is set");
    CHECKM(s.rdstate() == bits(st), "flush: badbit exactly when sync fails"); CHECKM(sb.syncs == syncs, "flush synchronises the buffer once"); obs(st);
  }
  DONE();
}
