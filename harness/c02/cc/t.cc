#include "rust/cxx.h"
#include "sym.h"
#include "utf.h"
#include <string>
extern "C" int rs_cmp(const char *, size_t, const char *, size_t);
extern "C" bool rs_eq(const char *, size_t, const char *, size_t);
template <typename S> static void ops(const S &a, const S &b) {
  int c = rs_cmp(a.data(), a.size(), b.data(), b.size());
  sym_assert(rs_eq(a.data(), a.size(), b.data(), b.size()) == (c == 0), "rust-eq-is-cmp");
  sym_assert((a == b) == (c == 0), "eq"); sym_assert((a != b) == (c != 0), "ne");
  sym_assert((a < b) == (c < 0), "lt"); sym_assert((a <= b) == (c <= 0), "le");
  sym_assert((a > b) == (c > 0), "gt"); sym_assert((a >= b) == (c >= 0), "ge");
  if (c < 0) sym_reach("less"); else if (c > 0) sym_reach("greater"); else sym_reach("equal");
}
extern "C" {
void h_cmp() {
  unsigned which = sym_choice(3, "type"); size_t lim = sym_tier() ? 5 : 4;
  size_t n = sym_choice(lim, "n"), m = sym_choice(lim, "m"); if (!sym_tier()) sym_assume(n + m <= 5);
  u8 a[8], b[8]; sym_bytes(a, n, "a"); sym_bytes(b, m, "b"); sym_assume(ref_utf8(a, n)); sym_assume(ref_utf8(b, m));
  if (which == 0) { rust::Str x((const char *)a, n), y((const char *)b, m); ops(x, y); ops(x, x); }
  else if (which == 1) { rust::String x((const char *)a, n), y((const char *)b, m); ops(x, y); rust::String z(x); ops(x, z); }
  else { rust::String x((const char *)a, n), y((const char *)b, m); rust::Str u(x), v(y); ops(u, v); sym_assert((x < y) == (u < v), "string-and-str-agree"); }
}
// a common prefix of every length followed by one symbolic byte each: differences far into the text
void h_cmp_long() {
  static const size_t L[] = {7, 8, 15, 16, 17, 31, 32, 33, 64}; size_t k = L[sym_choice(9, "prefix")]; size_t n = sym_choice(2, "n"), m = sym_choice(2, "m");
  u8 a[72], b[72]; for (size_t i = 0; i < k; i++) a[i] = b[i] = 'a' + i % 26; sym_bytes(a + k, n, "a"); sym_bytes(b + k, m, "b");
  sym_assume(n == 0 || a[k] < 0x80); sym_assume(m == 0 || b[k] < 0x80);
  if (sym_choice(2, "type")) { rust::String x((const char *)a, k + n), y((const char *)b, k + m); ops(x, y); } else { rust::Str x((const char *)a, k + n), y((const char *)b, k + m); ops(x, y); }
}
// views of one buffer
void h_cmp_overlap() {
  u8 a[4]; size_t n = sym_choice(4, "n"); sym_bytes(a, n, "a"); for (size_t i = 0; i < n; i++) sym_assume(a[i] < 0x80);
  size_t i = sym_choice(n + 1, "i"), j = sym_choice(n + 1, "j"); rust::Str x((const char *)a + i, n - i), y((const char *)a, j); ops(x, y);
}
}
