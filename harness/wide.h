// Definitions of the C library's wide character functions for the symbolic build (the native build uses libc's).
#pragma once
#include <cwchar>
#ifndef SX_NATIVE
extern "C" {
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) noexcept { for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) noexcept { __builtin_memmove(d, s, n * sizeof(wchar_t)); return d; }
wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) noexcept { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
size_t wcslen(const wchar_t *s) noexcept { size_t n = 0; while (s[n]) ++n; return n; }
int wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) noexcept { for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
}
#endif
