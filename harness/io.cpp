// I01/I02: string streams. I03: fmemopen/fread/fclose. I04: output forwarding.
#include "sx.h"
#include "cest/iostream.hpp"
#include "cest/sstream.hpp"
#include "cest/cstdio.hpp"
#include <cstdio>
#include <ios>
#include "wide.h"
#include "bounds.h"
#ifndef K
#define K 2
#endif
#ifndef N0
#define N0 3
#endif
#ifndef GROW
#define GROW 20
#endif
using ib = cest::ios_base;
static const unsigned BAD = 1, EOFB = 2, FAILB = 4;
static ib::iostate bits(unsigned s) { ib::iostate r = ib::goodbit; if (s & BAD) r = r | ib::badbit; if (s & EOFB) r = r | ib::eofbit; if (s & FAILB) r = r | ib::failbit; return r; }
// every character value; wide streams cannot represent WEOF as a character (nor can the standard's)
template <class C> static C symC(const char *n) { C c = (C)sx_sym(n, sizeof(C) * 8); if (sizeof(C) > 1) assume(std::char_traits<C>::to_int_type(c) != std::char_traits<C>::eof()); return c; }

// The standard's rules for an input string stream, written as a model: characters, position, state bits, gcount, exception mask.
template <class C> struct Model {
  C a[64]; int n = 0, pos = 0; unsigned st = 0, mask = 0; long gc = 0; bool in = true; C got[64]; int ngot = 0;
  bool set(unsigned s) { st = s; return (st & mask) != 0; }                 // clear(s): true = throws
  int len() const { return in ? n : 0; }
  bool get() { gc = 0; ngot = 0; if (st) return set(st | FAILB); if (pos < len()) { got[ngot++] = a[pos++]; gc = 1; return false; } return set(st | EOFB | FAILB); }
  bool unget() { gc = 0; if (set(st & ~EOFB)) return true; if (st) return set(st | FAILB); if (pos == 0) return set(st | BAD); --pos; return false; }
  bool read(int k) { gc = 0; ngot = 0; if (st) return set(st | FAILB); while (ngot < k && pos < len()) got[ngot++] = a[pos++]; gc = ngot; if (ngot < k) return set(st | EOFB | FAILB); return false; }
};
template <class S, class C> static void agree(const S &s, const Model<C> &m) {
  CHECKM(s.gcount() == m.gc, "gcount() is the number of characters the last operation extracted");
  CHECKM(s.good() == (m.st == 0), "good()"); CHECKM(s.eof() == ((m.st & EOFB) != 0), "eof()");
  CHECKM(s.fail() == ((m.st & (BAD | FAILB)) != 0), "fail()"); CHECKM((bool)s == !s.fail(), "operator bool"); CHECKM(!s == s.fail(), "operator!");
  CHECKM(s.rdstate() == bits(m.st), "state bits"); CHECKM(s.exceptions() == bits(m.mask), "exceptions mask");
}
template <class S, class C> static void content(const S &s, const Model<C> &m) {
  auto t = s.str(); CHECKM((int)t.size() == m.n, "str() length"); for (int i = 0; i < m.n; ++i) CHECKM(t[i] == m.a[i], "str() returns the buffer");
}
template <class S, class C> static void stepGet(S &s, Model<C> &m) {
  C c = (C)0x5a, c0 = c; bool th = false;
  try { S &r = static_cast<S &>(s.get(c)); CHECKM(&r == &s, "get returns the stream"); } catch (const std::ios_base::failure &) { th = true; }
  bool mt = m.get(); CHECKM(th == mt, "an exception is thrown exactly when a masked state bit is set");
  CHECKM(c == (m.ngot ? m.got[0] : c0), "get delivers the character at the position, and nothing at the end");
  agree(s, m);
}
template <class S, class C> static void stepUnget(S &s, Model<C> &m) {
  bool th = false;
  try { auto &r = s.unget(); CHECKM(&r == &s, "unget returns the stream"); } catch (const std::ios_base::failure &) { th = true; }
  bool mt = m.unget(); CHECKM(th == mt, "an exception is thrown exactly when a masked state bit is set");
  agree(s, m);
}
template <class S, class C> static void stepRead(S &s, Model<C> &m, int k) {
  C b[24]; for (int i = 0; i < 24; ++i) b[i] = (C)(0x30 + i); bool th = false;
  try { auto &r = s.read(b, k); CHECKM(&r == &s, "read returns the stream"); } catch (const std::ios_base::failure &) { th = true; }
  bool mt = m.read(k); CHECKM(th == mt, "an exception is thrown exactly when a masked state bit is set");
  for (int i = 0; i < 24; ++i) CHECKM(b[i] == (i < m.ngot ? m.got[i] : (C)(0x30 + i)), "read stores exactly the characters extracted");
  agree(s, m);
}
template <class C> static cest::basic_string<C> fresh(Model<C> &m, int n) { m.n = n; m.pos = 0; for (int i = 0; i < n; ++i) m.a[i] = symC<C>("ch"); return cest::basic_string<C>(m.a, (size_t)n); }

// ---- I01: contents and positions
template <class S, class C> static void i01(S &s, Model<C> &m, int ops) {
  agree(s, m); content(s, m);
  for (int k = 0; k < ops; ++k) {
    switch (pick("op", 5)) {
      case 0: stepGet(s, m); break;
      case 1: stepUnget(s, m); break;
      case 2: stepRead(s, m, (int)pick("count", N0 + 2)); break;
      case 3: { cest::basic_string<C> t = fresh(m, (int)pick("len", N0)); s.str(t); agree(s, m); content(s, m); break; }
      case 4: s.clear(); m.st = 0; agree(s, m); break;
    }
    obs((uint64_t)s.gcount()); obs(m.st);
  }
  content(s, m); DONE();
}
SX_HARNESS(i01_istr) { Model<char> m; cest::string t = fresh(m, (int)pick("len", N0 + 1)); cest::istringstream s(t); i01(s, m, K); }
SX_HARNESS(i01_str) { Model<char> m; cest::string t = fresh(m, (int)pick("len", N0 + 1)); cest::stringstream s(t); i01(s, m, K); }
SX_HARNESS(i01_wide) { Model<wchar_t> m; if (pick("kind", 2)) { cest::wistringstream s(fresh(m, (int)pick("len", N0 + 1))); i01(s, m, K); } else { cest::wstringstream s(fresh(m, (int)pick("len", N0 + 1))); i01(s, m, K); } }
SX_HARNESS(i01_empty) { Model<char> m; if (pick("kind", 2)) { cest::istringstream s; i01(s, m, K); } else { cest::stringstream s; i01(s, m, K); } }
// every combination of open modes: without `in` a stringstream delivers nothing
SX_HARNESS(i01_mode) {
  Model<char> m; cest::string t = fresh(m, (int)pick("len", N0 + 1)); unsigned k = pick("mode", 64); ib::openmode o = (ib::openmode)0;
  if (k & 1) o = o | ib::in; if (k & 2) o = o | ib::out; if (k & 4) o = o | ib::ate; if (k & 8) o = o | ib::app; if (k & 16) o = o | ib::binary;
  if (k & 32) { cest::istringstream s(t, o); i01(s, m, K); } else { m.in = k & 1; cest::stringstream s(t, o); i01(s, m, K); }
}
// a long buffer: drain it by reads of symbolic sizes, then by get, then walk back with unget
SX_HARNESS(i01_long) {
  Model<char> m; int n = GROW; cest::string t = fresh(m, n); cest::istringstream s(t);
  stepRead(s, m, (int)choose("k1", 24)); stepRead(s, m, (int)choose("k2", 24));
  unsigned g = choose("gets", 4); for (unsigned i = 0; i < g; ++i) stepGet(s, m);
  if (m.st) { s.clear(); m.st = 0; }
  unsigned u = choose("ungets", 4); for (unsigned i = 0; i < u; ++i) stepUnget(s, m);
  stepGet(s, m); DONE();
}
// two streams over equal text do not influence each other; the source string stays as it was
SX_HARNESS(i01_two) {
  Model<char> m; cest::string t = fresh(m, (int)pick("len", N0 + 1)); Model<char> m2 = m; cest::istringstream s(t); cest::istringstream s2(s.str());
  for (int i = 0; i < K; ++i) switch (pick("op", 5)) { case 0: stepGet(s, m); break; case 1: stepGet(s2, m2); break; case 2: stepUnget(s, m); break; case 3: stepRead(s2, m2, 2); break;
    case 4: { t.clear(); t.push_back('x'); break; } }
  agree(s, m); agree(s2, m2); content(s, m); content(s2, m2); DONE();
}
// ---- I02: state bits, from every state and mask
template <class S, class C> static void i02(S &s, Model<C> &m, int ops) {
  for (int k = 0; k < ops; ++k) {
    bool th = false, mt = false;
    switch (pick("op", 7)) {
      case 0: stepGet(s, m); break;
      case 1: stepUnget(s, m); break;
      case 2: stepRead(s, m, (int)pick("count", 3)); break;
      case 3: { unsigned v = pick("state", 8); try { s.clear(bits(v)); } catch (const std::ios_base::failure &) { th = true; } mt = m.set(v); CHECKM(th == mt, "clear throws exactly when a masked bit is set"); break; }
      case 4: { unsigned v = pick("state", 8); try { s.setstate(bits(v)); } catch (const std::ios_base::failure &) { th = true; } mt = m.set(m.st | v); CHECKM(th == mt, "setstate throws exactly when a masked bit is set"); break; }
      case 5: { unsigned v = pick("mask", 8); try { s.exceptions(bits(v)); } catch (const std::ios_base::failure &) { th = true; } m.mask = v; mt = m.set(m.st); CHECKM(th == mt, "exceptions(mask) throws exactly when a masked bit is already set"); break; }
      case 6: { try { s.clear(); } catch (const std::ios_base::failure &) { th = true; } mt = m.set(0); CHECKM(!th, "clear() throws nothing"); break; }
    }
    agree(s, m); obs(m.st); obs(m.pos);
  }
  DONE();
}
SX_HARNESS(i02_hist) { Model<char> m; cest::string t = fresh(m, (int)pick("len", 2)); cest::istringstream s(t); i02(s, m, K); }
SX_HARNESS(i02_str) { Model<char> m; cest::string t = fresh(m, (int)pick("len", 3)); cest::stringstream s(t); i02(s, m, K); }
// from every reachable combination of state and mask at once
SX_HARNESS(i02_any) {
  Model<char> m; cest::string t = fresh(m, (int)pick("len", N0)); cest::istringstream s(t);
  unsigned p = pick("pos", N0); for (unsigned i = 0; i < p; ++i) stepGet(s, m);
  unsigned st = pick("st", 8), mk = pick("mk", 8); try { s.clear(bits(st)); s.exceptions(bits(mk)); } catch (const std::ios_base::failure &) {} m.st = st; m.mask = mk; agree(s, m);
  i02(s, m, K);
}
// a stream without a buffer is bad, and stays so
SX_HARNESS(i02_nobuf) {
  Model<char> m; m.in = false; m.st = BAD; cest::istream s(nullptr); agree(s, m); CHECK(s.rdbuf() == nullptr);
  for (int k = 0; k < K; ++k) {
    bool th = false, mt = false;
    switch (pick("op", 6)) {
      case 0: stepGet(s, m); break; case 1: stepRead(s, m, (int)pick("count", 2)); break;
      case 2: { try { s.unget(); } catch (const std::ios_base::failure &) { th = true; } m.gc = 0; mt = m.set((m.st & ~EOFB) | BAD); if (!mt) mt = m.set(m.st | FAILB | BAD); CHECKM(th == mt, "masked bit"); break; }
      case 3: { unsigned v = pick("state", 8); try { s.clear(bits(v)); } catch (const std::ios_base::failure &) { th = true; } mt = m.set(v | BAD); CHECKM(th == mt, "clear throws exactly when a masked bit is set"); break; }
      case 4: { unsigned v = pick("state", 8); try { s.setstate(bits(v)); } catch (const std::ios_base::failure &) { th = true; } mt = m.set(m.st | v | BAD); CHECKM(th == mt, "setstate throws exactly when a masked bit is set"); break; }
      case 5: { unsigned v = pick("mask", 8); try { s.exceptions(bits(v)); } catch (const std::ios_base::failure &) { th = true; } m.mask = v; mt = m.set(m.st | BAD); CHECKM(th == mt, "exceptions(mask)"); break; }
    }
    agree(s, m); obs(m.st);
  }
  DONE();
}
// str(s) leaves state and mask alone
SX_HARNESS(i02_restr) {
  Model<char> m; cest::string t = fresh(m, (int)pick("len", 2)); cest::istringstream s(t);
  for (int k = 0; k < K; ++k) switch (pick("op", 5)) { case 0: stepGet(s, m); break; case 1: stepUnget(s, m); break; case 2: stepRead(s, m, 2); break; case 3: { cest::string u = fresh(m, (int)pick("len", 2)); s.str(u); agree(s, m); break; } case 4: s.clear(); m.st = 0; agree(s, m); break; }
  DONE();
}
// ---- I03
SX_HARNESS(i03_hist) {
  static const int MX = 64; char blk[MX], ref[MX]; int n = (int)pick("size", GROW + 1); for (int i = 0; i < n; ++i) ref[i] = blk[i] = symChar("byte");
  cest::FILE *f = cest::fmemopen(blk, (size_t)n, "r"); CHECK(f != nullptr); int pos = 0;
  if (pick("overwrite", 2)) {} // the block itself is not consulted again only when it was copied; either way its bytes are unchanged
  for (int k = 0; k < K; ++k) {
    int c = (int)pick("count", N0 + 1); char out[MX]; for (int i = 0; i < MX; ++i) out[i] = (char)(0x21 + i);
    size_t r = cest::fread(out, 1, (size_t)c, f); int want = c < n - pos ? c : n - pos;
    CHECKM((int)r == want, "fread returns the number of bytes stored, short only at the end of the block");
    for (int i = 0; i < MX; ++i) CHECKM(out[i] == (i < want ? ref[pos + i] : (char)(0x21 + i)), "fread stores the next bytes of the block and nothing beyond");
    pos += want; obs(r);
  }
  for (int i = 0; i < n; ++i) CHECKM(blk[i] == ref[i], "the block is not modified");
  CHECKM(cest::fclose(f) == 0, "fclose succeeds"); DONE();
}
// two files at once, interleaved
SX_HARNESS(i03_two) {
  char a[8], b[8]; int na = (int)pick("na", 5), nb = (int)pick("nb", 5); for (int i = 0; i < na; ++i) a[i] = symChar("a"); for (int i = 0; i < nb; ++i) b[i] = symChar("b");
  cest::FILE *f = cest::fmemopen(a, (size_t)na, "rb"), *g = cest::fmemopen(b, (size_t)nb, "r"); int pa = 0, pb = 0;
  for (int k = 0; k < K; ++k) {
    bool w = pick("which", 2); int c = (int)pick("count", 4); char out[4] = {1, 2, 3, 4}; int &p = w ? pa : pb; int n = w ? na : nb; const char *src = w ? a : b; size_t r = cest::fread(out, sizeof(char), (size_t)c, w ? f : g);
    int want = c < n - p ? c : n - p; CHECK((int)r == want); for (int i = 0; i < 4; ++i) CHECKM(out[i] == (i < want ? src[p + i] : (char)(i + 1)), "each file delivers its own block"); p += want;
  }
  if (pick("order", 2)) { CHECK(cest::fclose(f) == 0); char out[8]; size_t r = cest::fread(out, 1, 8, g); CHECK((int)r == nb - pb); for (int i = 0; i < nb - pb; ++i) CHECK(out[i] == b[pb + i]); CHECK(cest::fclose(g) == 0); }
  else { CHECK(cest::fclose(g) == 0); CHECK(cest::fclose(f) == 0); }
  DONE();
}
// reads from a file whose stream state was changed in between: a stream that is not good delivers nothing
SX_HARNESS(i03_state) {
  char blk[8]; int n = (int)pick("size", 4); for (int i = 0; i < n; ++i) blk[i] = symChar("byte");
  cest::FILE *f = cest::fmemopen(blk, (size_t)n, "r"); int pos = 0; unsigned st = 0;
  for (int k = 0; k < K; ++k) {
    if (pick("op", 3)) {
      int c = (int)pick("count", 4); char out[4] = {1, 2, 3, 4}; size_t r = cest::fread(out, 1, (size_t)c, f); int want = st ? 0 : c < n - pos ? c : n - pos;
      if (st) st |= FAILB; else if (want < c) st |= FAILB | EOFB;
      CHECKM((int)r == want, "fread returns the number of bytes stored"); for (int i = 0; i < 4; ++i) CHECKM(out[i] == (i < want ? blk[pos + i] : (char)(i + 1)), "fread stores the next bytes and nothing beyond"); pos += want;
    } else { unsigned v = pick("state", 8); f->clear(bits(v)); st = v; }
    CHECKM(f->rdstate() == bits(st), "the stream state");
  }
  cest::fclose(f); DONE();
}
// a larger block read through in equal chunks of every size
SX_HARNESS(i03_chunks) {
  char blk[64]; int n = GROW; for (int i = 0; i < n; ++i) blk[i] = symChar("byte"); int c = 1 + (int)choose("chunk", GROW + 1); cest::FILE *f = cest::fmemopen(blk, (size_t)n, "r"); int pos = 0; char all[128];
  for (int guard = 0; guard < 70; ++guard) { size_t r = cest::fread(all + pos, 1, (size_t)c, f); pos += (int)r; CHECK(pos <= n); if ((int)r < c) break; }
  CHECKM(pos == n, "everything is delivered"); for (int i = 0; i < n; ++i) CHECK(all[i] == blk[i]); CHECKM(cest::fread(all, 1, 1, f) == 0, "nothing after the end"); cest::fclose(f); DONE();
}
// ---- I04
struct OtherOut { cest::basic_stringbuf<char> b; cest::ostream o; OtherOut() : b(cest::string("other")), o(&b) {} };
static cest::ostream &stream(unsigned k, OtherOut &x) { return k == 0 ? cest::cout : k == 1 ? cest::cerr : k == 2 ? cest::clog : x.o; }
static void expc(unsigned k, char c) { if (k < 3) SX_OUTPUT((int)k, 'c', (unsigned char)c); }
static void expi(unsigned k, long v) { if (k < 3) SX_OUTPUT((int)k, 'i', (uint64_t)v); }
static void exps(unsigned k, const char *s) { for (; *s; ++s) expc(k, *s); }
static void op04(OtherOut &x) {
  unsigned k = pick("stream", 4); cest::ostream &o = stream(k, x); cest::ostream *r = nullptr;
  switch (pick("op", 10)) {
    case 0: { int v = symInt("int"); r = &(o << v); expi(k, v); break; }
    case 1: { unsigned v = symUInt("unsigned"); r = &(o << v); expi(k, (long)v); break; }
    case 2: { long v = (long)symU64("long"); r = &(o << v); expi(k, v); break; }
    case 3: { char c = symChar("char"); r = &(o << c); expc(k, c); break; }
    case 4: { char s[4] = {0, 0, 0, 0}; unsigned n = pick("len", 4); for (unsigned i = 0; i < n; ++i) { s[i] = symChar("c"); assume(s[i] != 0); } r = &(o << (const char *)s); exps(k, s); break; }
    case 5: { cest::string s; unsigned n = pick("len", 4); for (unsigned i = 0; i < n; ++i) { char c = symChar("c"); s.push_back(c); expc(k, c); } r = &(o << s); break; }
    case 6: { r = &(o << cest::endl<char, std::char_traits<char>>); expc(k, '\n'); break; }
    case 7: { short v = symShort("short"); r = &(o << v); expi(k, v); break; }
    case 8: { r = &o.flush(); break; }
    case 9: { r = &(o << cest::dec); break; }
  }
  CHECKM(r == &o, "inserting yields the stream"); CHECKM(o.good(), "the stream stays good");
}
SX_HARNESS(i04_hist) { OtherOut x; for (int k = 0; k < K; ++k) op04(x); CHECKM(sx_expect_match(), "each stream receives exactly what was inserted into it, in order"); DONE(); }
SX_HARNESS(i04_chain) {
  OtherOut x; unsigned k = pick("stream", 4); cest::ostream &o = stream(k, x); int v = symInt("v"); char c = symChar("c"); char d = symChar("d"); cest::string s; s.push_back(d); s.push_back('\0'); s.push_back(c); long l = (long)symU64("l");
  o << "a" << v << ' ' << s << l << cest::endl<char, std::char_traits<char>> << c;
  expc(k, 'a'); expi(k, v); expc(k, ' '); expc(k, d); expc(k, 0); expc(k, c); expi(k, l); expc(k, '\n'); expc(k, c);
  CHECKM(sx_expect_match(), "a chain of insertions is forwarded in order"); DONE();
}
static void expbuf(int k, const char *b, int n) { for (int i = 0; i < n; ++i) SX_OUTPUT(k, 'c', (unsigned char)b[i]); }
SX_HARNESS(i04_printf) {
  char ref[64]; int r = 0, want = 0; char s[4] = {0, 0, 0, 0}; unsigned n = pick("len", 3); for (unsigned i = 0; i < n; ++i) { s[i] = symChar("c"); assume(s[i] != 0); }
  unsigned sh = pick("shape", 6);
  int i1 = symInt("i1"), i2 = symInt("i2"); char c1 = symChar("c1");
  switch (sh) {
    case 0: r = cest::printf("x%d|%d\n", i1, i2); want = std::snprintf(ref, sizeof ref, "x%d|%d\n", i1, i2); break;
    case 1: r = cest::printf("%s=%d", s, i1); want = std::snprintf(ref, sizeof ref, "%s=%d", s, i1); break;
    case 2: r = cest::printf("%c%s%%", c1, s); want = std::snprintf(ref, sizeof ref, "%c%s%%", c1, s); break;
    case 3: r = cest::printf((const char *)s); want = 0; for (unsigned i = 0; i < n; ++i) ref[want++] = s[i]; break;
    case 4: r = cest::printf("%u", (unsigned)i1); want = std::snprintf(ref, sizeof ref, "%u", (unsigned)i1); break;
    case 5: r = cest::printf("%5.2f", 2.5); want = std::snprintf(ref, sizeof ref, "%5.2f", 2.5); break;
  }
  SX_PRINTF_RESULT(r == want, "printf returns the number of characters"); expbuf(3, ref, want);
  CHECKM(sx_expect_match(), "printf writes exactly the formatted text to standard output"); DONE();
}
SX_HARNESS(i04_fprintf) {
  OtherOut x; unsigned k = pick("stream", 4); cest::ostream *o = k == 0 ? cest::stdout : k == 1 ? cest::stderr : &stream(k, x); int kk = k < 3 ? (int)k : -1;
  char ref[64]; int r = 0, want = 0; char s[4] = {0, 0, 0, 0}; unsigned n = pick("len", 3); for (unsigned i = 0; i < n; ++i) { s[i] = symChar("c"); assume(s[i] != 0); }
  unsigned sh = pick("shape", 5); int i1 = symInt("i1"); char c1 = symChar("c1");
  switch (sh) {
    case 0: r = cest::fprintf(o, "x%d|%s\n", i1, s); want = std::snprintf(ref, sizeof ref, "x%d|%s\n", i1, s); break;
    case 1: r = cest::fprintf(o, "%c%s", c1, s); want = std::snprintf(ref, sizeof ref, "%c%s", c1, s); break;
    case 2: cest::fprintf(o, (const char *)s); for (unsigned i = 0; i < n; ++i) ref[want++] = s[i]; r = want; break;
    case 3: r = cest::fprintf(o, "%u%%", (unsigned)i1); want = std::snprintf(ref, sizeof ref, "%u%%", (unsigned)i1); break;
    case 4: r = cest::fprintf(o, "%g %s", 0.125, s); want = std::snprintf(ref, sizeof ref, "%g %s", 0.125, s); break;
  }
  SX_PRINTF_RESULT(r == want, "fprintf returns the number of characters"); if (kk >= 0) expbuf(kk, ref, want);
  CHECKM(sx_expect_match(), "fprintf writes exactly the formatted text to its stream"); DONE();
}
// long strings, NULs included
SX_HARNESS(i04_long) {
  OtherOut x; unsigned k = pick("stream", 4); cest::ostream &o = stream(k, x); int n = (int)choose("len", GROW + 1); cest::string s; for (int i = 0; i < n; ++i) { char c = symChar("c"); s.push_back(c); expc(k, c); }
  CHECK(&(o << s) == &o); CHECKM(sx_expect_match(), "a string of any content is forwarded unaltered"); DONE();
}
#include "huge.h"
static inline bool both(bool a, bool b) { return (unsigned)a & (unsigned)b; }
static char big1[65700], big2[65700];
SX_HARNESS(i01_huge) { // long buffers
  const int n = (int)hugeN(); const char s = symChar("salt"); for (int i = 0; i < n; ++i) big1[i] = (char)((i * 7 + (i >> 8)) ^ (unsigned char)s);
  auto run = [&](auto &in) { bool ok = true; int h = n / 2; auto &r = in.read(big2, h); CHECK(&r == &in); CHECK(in.gcount() == h); CHECK(in.good()); for (int i = 0; i < h; ++i) ok = both(ok, big2[i] == big1[i]); char c = 0; for (int i = h; i < n; ++i) { in.get(c); ok = both(ok, c == big1[i]); } CHECKM(ok, "the buffer's characters are delivered in order"); CHECK(in.good()); in.get(c); CHECK(in.eof()); CHECK(in.fail()); in.clear(); for (int i = 0; i < n - 1; ++i) in.unget(); CHECK(in.good()); in.get(c); CHECK(c == big1[1]); in.read(big2, n); CHECKM(in.gcount() == n - 2, "a read is short at the end"); for (int i = 2; i < n; ++i) ok = both(ok, big2[i - 2] == big1[i]); CHECKM(ok, "the buffer's characters are delivered in order"); CHECK(in.eof()); CHECK(in.fail()); };
  if (split("kind", 2)) { cest::istringstream in(cest::string(big1, (unsigned long)n)); run(in); } else { cest::stringstream in(cest::string(big1, (unsigned long)n)); run(in); } obs((unsigned)n); DONE();
}
SX_HARNESS(i03_huge) { // large blocks
  const unsigned n = hugeN(); const char s = symChar("salt"); for (unsigned i = 0; i < n; ++i) big1[i] = (char)((i * 7 + (i >> 8)) ^ (unsigned char)s); cest::FILE *f = cest::fmemopen(big1, n, "r"); unsigned k = split("sizes", 3); k = k == 0 ? n : k == 1 ? n / 2 : n - 1; for (unsigned i = 0; i < 65700; ++i) big2[i] = 'z';
  CHECK(cest::fread(big2, 1, k, f) == k); bool ok = true; for (unsigned i = k; i < 65700; ++i) ok = both(ok, big2[i] == 'z'); CHECKM(ok, "nothing beyond the count is written"); CHECKM(cest::fread(big2 + k, 1, n, f) == n - k, "a read is short at the end"); for (unsigned i = 0; i < n; ++i) ok = both(ok, big2[i] == big1[i]); for (unsigned i = n; i < 65700; ++i) ok = both(ok, big2[i] == 'z'); CHECKM(ok, "the block's bytes in order, and no more"); CHECK(cest::fread(big2, 1, 1, f) == 0); cest::fclose(f); obs(n); DONE();
}
