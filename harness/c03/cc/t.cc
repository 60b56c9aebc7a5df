#include "rust/cxx.h"
#include "sym.h"
#include "utf.h"
#include "os.h"
#include <cstring>
#include <new>
#include <string>
#include <string_view>
#include <utility>
// What each string must hold.
struct M { u8 b[80]; size_t n; };
static const int NS = 2;
static rust::String *S[NS]; static M m[NS];
static void check(int i) {
  const rust::String &s = *S[i];
  sym_assert(s.size() == m[i].n && s.length() == m[i].n, "size"); sym_assert(s.empty() == (m[i].n == 0), "empty");
  sym_assert(eqn(s.data(), m[i].b, m[i].n), "contents"); sym_assert(s.capacity() >= m[i].n, "capacity");
}
// A moved-from string may hold anything, but it must be a readable string.
static void adopt(int i) { size_t n = sym_concrete(S[i]->size()); sym_assert(n < 80, "moved-from-length"); m[i].n = n; memcpy(m[i].b, S[i]->data(), n); }
static void fresh(int i, size_t n, const char *name) {
  m[i].n = n; sym_bytes(m[i].b, n, name); for (size_t k = 0; k < n; k++) sym_assume(m[i].b[k] < 0x80);
  S[i] = new rust::String((const char *)m[i].b, n);
}
static int i, j; static void pick() { i = sym_choice(NS, "i"); j = sym_choice(NS, "j"); }
enum { COPY_ASSIGN, MOVE_ASSIGN, COPY_CTOR, MOVE_CTOR, SWAP, CSTR, RESERVE, TO_STD, ITER, WRITE, STREAM, STR, FRESH, TEMP, NOPS };
static void step(unsigned op) {
  switch (op) {
  case COPY_ASSIGN: pick(); { rust::String &r = (*S[i] = *S[j]); sym_assert(&r == S[i], "assign-returns-this"); } m[i] = m[j]; break;
  case MOVE_ASSIGN: pick(); { rust::String &r = (*S[i] = std::move(*S[j])); sym_assert(&r == S[i], "assign-returns-this"); } if (i != j) m[i] = m[j]; adopt(j); break;
  case COPY_CTOR: pick(); { rust::String *t = new rust::String(*S[j]); if (i != j) { delete S[i]; S[i] = t; m[i] = m[j]; } else { sym_assert(t->data() != S[j]->data() || m[j].n == 0, "copy-is-separate"); delete t; } } break;
  case MOVE_CTOR: pick(); { rust::String *t = new rust::String(std::move(*S[j])); M old = m[j]; adopt(j); delete S[i]; S[i] = t; m[i] = old; } break;
  case SWAP: { unsigned k = sym_choice(3, "swap"); pick(); if (k == 0) S[i]->swap(*S[j]); else if (k == 1) { using std::swap; swap(*S[i], *S[j]); } else std::swap(*S[i], *S[j]); std::swap(m[i], m[j]); break; }
  case CSTR: i = sym_choice(NS, "i"); { const char *p = S[i]->c_str(); sym_assert(p[m[i].n] == 0, "nul-terminated"); sym_assert(eqn(p, m[i].b, m[i].n), "c_str-bytes"); sym_assert(p == S[i]->data(), "c_str-is-data"); } break;
  case RESERVE: i = sym_choice(NS, "i"); { static const size_t C[] = {0, 1, 3, 40}; size_t c = C[sym_choice(4, "cap")]; S[i]->reserve(c); sym_assert(S[i]->capacity() >= c, "reserved"); } break;
  case TO_STD: i = sym_choice(NS, "i"); { std::string s = (std::string)*S[i]; sym_assert(s.size() == m[i].n && eqn(s.data(), m[i].b, m[i].n), "to-std-string"); rust::String t(s); sym_assert(t.size() == m[i].n && eqn(t.data(), m[i].b, m[i].n), "from-std-string"); } break;
  case ITER: i = sym_choice(NS, "i"); { size_t k = 0; const rust::String &c = *S[i]; int same = 1; for (char x : *S[i]) { if (k < m[i].n) same = sym_and(same, (u8)x == m[i].b[k]); k++; } sym_assert(k == m[i].n && same, "iterate"); k = 0; same = 1; for (auto it = c.begin(); it != c.end(); ++it) { if (k < m[i].n) same = sym_and(same, (u8)*it == m[i].b[k]); k++; } sym_assert(k == m[i].n && same, "iterate-const"); sym_assert((size_t)(c.cend() - c.cbegin()) == m[i].n, "cbegin-cend"); } break;
  case WRITE: i = sym_choice(NS, "i"); if (m[i].n) { u8 v; sym_bytes(&v, 1, "v"); sym_assume(v < 0x80); *S[i]->begin() = v; m[i].b[0] = v; *(S[i]->end() - 1) = 'z'; m[i].b[m[i].n - 1] = 'z'; } break;
  case STREAM: i = sym_choice(NS, "i"); { SymOs o; std::ostream &r = (o.os() << *S[i]); sym_assert(&r == &o.os(), "stream-returns-stream"); sym_assert(o.size() == m[i].n && eqn(o.data(), m[i].b, m[i].n), "stream"); SymOs q; q.os() << rust::Str(*S[i]); sym_assert(q.size() == m[i].n && eqn(q.data(), m[i].b, m[i].n), "stream-str"); } break;
  case STR: i = sym_choice(NS, "i"); { rust::Str v(*S[i]); rust::Str w; w = v; rust::Str u; u.swap(w); std::swap(u, w); sym_assert(w.size() == m[i].n && w.length() == m[i].n && w.empty() == (m[i].n == 0) && w.data() == S[i]->data(), "str-view"); sym_assert(u.size() == 0, "str-swap"); std::string s = (std::string)w; sym_assert(s.size() == m[i].n && eqn(s.data(), m[i].b, m[i].n), "str-to-std"); std::string_view sv = (std::string_view)w; sym_assert(sv.size() == m[i].n && sv.data() == w.data(), "str-to-view"); size_t k = 0; int same = 1; for (char x : w) { if (k < m[i].n) same = sym_and(same, (u8)x == m[i].b[k]); k++; } sym_assert(k == m[i].n && same, "str-iterate"); sym_assert((size_t)(w.cend() - w.cbegin()) == m[i].n, "str-cbegin"); } break;
  case FRESH: i = sym_choice(NS, "i"); delete S[i]; fresh(i, 1 + sym_choice(2, "len"), "f"); break;
  case TEMP: i = sym_choice(NS, "i"); { rust::String a(*S[i]), b(std::move(a)), c; c = b; a = std::move(c); *S[i] = rust::String(std::move(a)); rust::String d = rust::String("xyz"); d = *S[i]; } break;
  }
  for (int k = 0; k < NS; k++) check(k);
}
static void run(int steps, size_t n0, size_t n1) {
  uint64_t l0 = sym_live();
  fresh(0, n0, "s0"); fresh(1, n1, "s1"); check(0); check(1);
  for (int t = 0; t < steps; t++) step(sym_choice(NOPS, "op"));
  for (int k = 0; k < NS; k++) delete S[k];
  sym_assert(sym_live() == l0, "every-buffer-released-once");
}
extern "C" {
void h_hist() { run(sym_tier() ? 3 : 2, sym_choice(3, "n0"), 1); }
void h_hist3() { run(3, 2, 0); }
void h_hist_long() { static const size_t L[] = {7, 8, 9, 15, 16, 23, 24, 31, 32, 64}; run(sym_tier() ? 2 : 1, L[sym_choice(10, "n0")], 3); }
}
