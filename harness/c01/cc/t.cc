#include "rust/cxx.h"
#include "sym.h"
#include "utf.h"
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
// Every way of making a rust::String / rust::Str from bytes. Which one is a path choice.
enum { S_STD, S_PTR, S_PTRLEN, S_U8, S_U8LEN, R_STD, R_PTR, R_PTRLEN, NCTOR };
static void build(unsigned how, const u8 *b, size_t n) {
  char *z = (char *)malloc(n + 1); memcpy(z, b, n); z[n] = 0;
  // an exact-size copy, so that reading past the given length is an out-of-bounds access
  char *x = (char *)malloc(n ? n : 1); memcpy(x, b, n);
  bool isptr = how == S_PTR || how == S_U8 || how == R_PTR; size_t len = n;
  if (isptr) { len = strlen(z); }
  int want = ref_utf8(b, len);
  bool ok = true; uint64_t l0 = sym_live();
  try {
    if (how <= S_U8LEN) {
      std::unique_ptr<rust::String> s;
      switch (how) {
      case S_STD: { std::string t(z, n); s.reset(new rust::String(t)); break; }
      case S_PTR: s.reset(new rust::String((const char *)z)); break;
      case S_PTRLEN: s.reset(new rust::String((const char *)x, n)); break;
      case S_U8: s.reset(new rust::String((const char8_t *)z)); break;
      case S_U8LEN: s.reset(new rust::String((const char8_t *)x, n)); break;
      }
      sym_assert(s->size() == len, "string-length"); sym_assert(eqn(s->data(), b, len), "string-bytes");
      sym_reach("accepted");
    } else {
      auto chk = [&](const rust::Str &s, const char *at) {
        sym_assert(s.size() == len, "str-length"); if (len) sym_assert(s.data() == at, "str-address"); sym_assert(eqn(s.data(), b, len), "str-bytes"); };
      switch (how) {
      case R_STD: { std::string t(z, n); rust::Str s(t); chk(s, t.data()); break; }
      case R_PTR: { rust::Str s((const char *)z); chk(s, z); break; }
      case R_PTRLEN: { rust::Str s((const char *)x, n); chk(s, x); break; }
      }
    }
  } catch (const std::invalid_argument &e) { ok = false; sym_reach("rejected"); }
  catch (...) { sym_assert(0, "throws-invalid-argument"); }
  sym_assert(sym_live() == l0, "leaks-nothing");
  sym_assert(ok == (want != 0), "accepted-iff-valid-utf8");
  free(z); free(x);
}
extern "C" {
void h_string_utf8() { unsigned how = sym_choice(NCTOR, "how"); size_t n = sym_choice(sym_tier() ? 6 : 5, "n"); u8 b[8]; sym_bytes(b, n, "b"); build(how, b, n); }
// one symbolic byte somewhere in a longer text: short-string, small-allocation and block boundaries
void h_string_long() {
  static const size_t L[] = {7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 40, 63, 64, 65};
  unsigned how = sym_choice(NCTOR, "how"); size_t n = L[sym_choice(15, "n")]; size_t at = sym_choice(3, "at"); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  u8 b[72]; for (size_t i = 0; i < n; i++) b[i] = 'a' + i % 26;
  sym_bytes(b + at, 1, "b"); if (sym_tier() && at + 1 < n) sym_bytes(b + at + 1, 1, "c"); build(how, b, n);
}
// a null pointer with length zero is the empty string
void h_string_null() {
  uint64_t l0 = sym_live();
  { rust::String a((const char *)nullptr, 0), b((const char16_t *)nullptr, 0), c = rust::String::lossy((const char *)nullptr, 0), d = rust::String::lossy((const char16_t *)nullptr, 0), e; rust::Str f((const char *)nullptr, 0), g;
    rust::String h((const char8_t *)nullptr, 0);
    sym_assert(a.size() == 0 && b.size() == 0 && c.size() == 0 && d.size() == 0 && e.size() == 0 && f.size() == 0 && g.size() == 0 && h.size() == 0, "null-is-empty");
    sym_assert(a.empty() && g.empty() && f.data() != nullptr && a.data() != nullptr && g.data() != nullptr, "null-is-valid");
    rust::String i(a), j((std::string)g), k; k = a; rust::Str l(k); sym_assert(i == e && l == g && j == e && k == e, "null-copies"); }
  sym_assert(sym_live() == l0, "leaks-nothing");
}
void h_string_lossy() {
  unsigned how = sym_choice(3, "how"); size_t n = sym_choice(sym_tier() ? 6 : 5, "n"); u8 b[8]; sym_bytes(b, n, "b");
  char *z = (char *)malloc(n + 1); memcpy(z, b, n); z[n] = 0; char *x = (char *)malloc(n ? n : 1); memcpy(x, b, n);
  size_t len = n; if (how == 1) len = strlen(z);
  uint64_t l0 = sym_live();
  { rust::String s = how == 0 ? rust::String::lossy(std::string(z, n)) : how == 1 ? rust::String::lossy((const char *)z) : rust::String::lossy((const char *)x, n);
    size_t m = sym_concrete(s.size()); u8 o[32]; size_t k = ref_lossy(b, len, o);
    sym_assert(m == k, "lossy-length"); sym_assert(m == k && eqn(s.data(), o, k), "lossy-bytes");
    int v = ref_utf8((const u8 *)s.data(), m); sym_assert(v, "lossy-result-is-utf8"); if (n == 4 && m == 4) sym_reach("lossy-4"); if (m > n) sym_reach("lossy-replaced"); }
  sym_assert(sym_live() == l0, "leaks-nothing"); free(z); free(x);
}
void h_string_utf16() {
  unsigned how = sym_choice(4, "how"); size_t n = sym_choice(sym_tier() ? 5 : 4, "n"); char16_t b[8]; sym_bytes(b, 2 * n, "b");
  char16_t *z = (char16_t *)malloc(2 * n + 2); memcpy(z, b, 2 * n); z[n] = 0; char16_t *x = (char16_t *)malloc(n ? 2 * n : 2); memcpy(x, b, 2 * n);
  size_t len = n; if (how & 1) { len = 0; while (z[len]) len++; }
  u8 o[32]; bool good; bool ok = true; uint64_t l0 = sym_live();
  try {
    rust::String s = how == 0 ? rust::String((const char16_t *)x, n) : how == 1 ? rust::String((const char16_t *)z) : how == 2 ? rust::String::lossy((const char16_t *)x, n) : rust::String::lossy((const char16_t *)z);
    size_t k = ref_utf16(b, len, o, &good);
    sym_assert(s.size() == k, "utf16-length"); sym_assert(s.size() == k && eqn(s.data(), o, k), "utf16-bytes"); if (k == 4) sym_reach("utf16-4"); if (!good) sym_reach("utf16-replaced");
    sym_assert(good || how >= 2, "utf16-accepted-iff-valid");
  } catch (const std::invalid_argument &) { ok = false; sym_reach("utf16-rejected"); ref_utf16(b, len, o, &good); sym_assert(!good && how < 2, "utf16-accepted-iff-valid"); }
  catch (...) { sym_assert(0, "throws-invalid-argument"); }
  sym_assert(sym_live() == l0, "leaks-nothing"); free(z); free(x);
}
}
