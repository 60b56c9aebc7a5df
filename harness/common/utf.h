// Reference UTF-8 / UTF-16 predicates, written from the Unicode standard (Table 3-7, D93b), branch-free
// where the executor profits from it.
#pragma once
#include "sym.h"
#include <string>
typedef unsigned char u8;
static inline int inr(unsigned v, unsigned lo, unsigned hi) { return sym_and(v >= lo, v <= hi); }
static inline int or3(int a, int b, int c) { return sym_or(sym_or(a, b), c); }
// 1 iff b[0,n) is well-formed UTF-8
static inline int ref_utf8(const u8 *b, size_t n) {
  int v[80]; if (n > 70) __builtin_trap(); v[n] = 1; v[n + 1] = v[n + 2] = v[n + 3] = v[n + 4] = 0;
  for (size_t i = n; i-- > 0;) {
    unsigned c = b[i]; int r = sym_and(c < 0x80, v[i + 1]);
    if (i + 1 < n) {
      unsigned d = b[i + 1]; r = sym_or(r, sym_and(sym_and(inr(c, 0xC2, 0xDF), inr(d, 0x80, 0xBF)), v[i + 2]));
      int t3 = sym_or(or3(sym_and(c == 0xE0, inr(d, 0xA0, 0xBF)), sym_and(inr(c, 0xE1, 0xEC), inr(d, 0x80, 0xBF)), sym_and(c == 0xED, inr(d, 0x80, 0x9F))), sym_and(inr(c, 0xEE, 0xEF), inr(d, 0x80, 0xBF)));
      if (i + 2 < n) { r = sym_or(r, sym_and(sym_and(t3, inr(b[i + 2], 0x80, 0xBF)), v[i + 3])); }
      int t4 = or3(sym_and(c == 0xF0, inr(d, 0x90, 0xBF)), sym_and(inr(c, 0xF1, 0xF3), inr(d, 0x80, 0xBF)), sym_and(c == 0xF4, inr(d, 0x80, 0x8F)));
      if (i + 3 < n) { r = sym_or(r, sym_and(sym_and(t4, sym_and(inr(b[i + 2], 0x80, 0xBF), inr(b[i + 3], 0x80, 0xBF))), v[i + 4])); }
    }
    v[i] = r;
  }
  return v[0];
}
static inline int eqn(const void *a, const void *b, size_t n) { int r = 1; const u8 *x = (const u8 *)a, *y = (const u8 *)b; for (size_t i = 0; i < n; i++) r = sym_and(r, x[i] == y[i]); return r; }
// Lossy decoding: every maximal subpart of an ill-formed sequence becomes U+FFFD. Returns the length.
static inline size_t ref_lossy(const u8 *b, size_t n, u8 *o) {
  size_t i = 0, k = 0;
  while (i < n) {
    u8 c = b[i]; size_t need = 0; u8 lo = 0x80, hi = 0xBF;
    if (c < 0x80) { o[k++] = c; i++; continue; }
    if (c >= 0xC2 && c <= 0xDF) need = 1;
    else if (c >= 0xE0 && c <= 0xEF) { need = 2; if (c == 0xE0) lo = 0xA0; if (c == 0xED) hi = 0x9F; }
    else if (c >= 0xF0 && c <= 0xF4) { need = 3; if (c == 0xF0) lo = 0x90; if (c == 0xF4) hi = 0x8F; }
    size_t j = 0;
    while (j < need && i + 1 + j < n && b[i + 1 + j] >= lo && b[i + 1 + j] <= hi) { j++; lo = 0x80; hi = 0xBF; }
    if (need && j == need) { for (size_t t = 0; t <= need; t++) o[k++] = b[i + t]; i += need + 1; }
    else { o[k++] = 0xEF; o[k++] = 0xBF; o[k++] = 0xBD; i += 1 + j; }
  }
  return k;
}
// UTF-16 decoding into UTF-8. *ok = well-formed. Lone surrogates become U+FFFD. Returns the length.
static inline size_t ref_utf16(const char16_t *b, size_t n, u8 *o, bool *ok) {
  size_t i = 0, k = 0; *ok = true;
  while (i < n) {
    uint32_t c = b[i++];
    if (c >= 0xD800 && c <= 0xDFFF) {
      if (c <= 0xDBFF && i < n && b[i] >= 0xDC00 && b[i] <= 0xDFFF) { c = 0x10000 + ((c - 0xD800) << 10) + (b[i] - 0xDC00); i++; }
      else { c = 0xFFFD; *ok = false; }
    }
    if (c < 0x80) o[k++] = c;
    else if (c < 0x800) { o[k++] = 0xC0 | c >> 6; o[k++] = 0x80 | (c & 0x3F); }
    else if (c < 0x10000) { o[k++] = 0xE0 | c >> 12; o[k++] = 0x80 | (c >> 6 & 0x3F); o[k++] = 0x80 | (c & 0x3F); }
    else { o[k++] = 0xF0 | c >> 18; o[k++] = 0x80 | (c >> 12 & 0x3F); o[k++] = 0x80 | (c >> 6 & 0x3F); o[k++] = 0x80 | (c & 0x3F); }
  }
  return k;
}
