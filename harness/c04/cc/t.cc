#include "lib.rs.h"
#include "sym.h"
#include "utf.h"
#include <cstring>
#include <iterator>
#include <stdexcept>
#include <string>
#include <utility>
int tr_copies_left = -1;
extern "C" void tr_free(uint32_t *p) { delete p; }
static const uint32_t GONE = 0xEEEE0001u; // value of a moved-from Tr
template <typename T> struct El;
template <> struct El<uint8_t> { static uint8_t mk(uint32_t v) { return v; } static uint32_t val(const uint8_t &t) { return t; } static const uint32_t mask = 0xff; };
template <> struct El<int64_t> { static int64_t mk(uint32_t v) { return ((int64_t)v << 20) - 5; } static uint32_t val(const int64_t &t) { return (uint32_t)((t + 5) >> 20); } static const uint32_t mask = ~0u; };
template <> struct El<double> { static double mk(uint32_t v) { uint64_t b = 0x4000000000000000ull | v; double d; memcpy(&d, &b, 8); return d; } static uint32_t val(const double &t) { uint64_t b; memcpy(&b, &t, 8); return (uint32_t)b; } static const uint32_t mask = ~0u; };
template <> struct El<bool> { static bool mk(uint32_t v) { return v & 1; } static uint32_t val(const bool &t) { return t; } static const uint32_t mask = 1; };
template <> struct El<char> { static char mk(uint32_t v) { return (char)v; } static uint32_t val(const char &t) { return (uint8_t)t; } static const uint32_t mask = 0xff; };
template <> struct El<size_t> { static size_t mk(uint32_t v) { return ((size_t)v << 32) | 7; } static uint32_t val(const size_t &t) { return (uint32_t)(t >> 32); } static const uint32_t mask = ~0u; };
static rust::String mkstr(uint32_t v) { char c[2] = {(char)(v & 0x7f), 'q'}; return rust::String(c, 2); }
template <> struct El<rust::String> { static rust::String mk(uint32_t v) { return mkstr(v); } static uint32_t val(const rust::String &t) { return t.size() == 2 ? (uint8_t)t.data()[0] : GONE; } static const uint32_t mask = 0x7f; };
template <> struct El<E> { static E mk(uint32_t v) { return E{v, mkstr(65), 9}; } static uint32_t val(const E &t) { sym_assert(t.b == 9, "struct-field"); return t.v; } static const uint32_t mask = ~0u; };
template <> struct El<Tr> { static Tr mk(uint32_t v) { return Tr(v); } static uint32_t val(const Tr &t) { return t.p ? *t.p : GONE; } static const uint32_t mask = ~0u; };
struct M { uint32_t v[24]; size_t n; };
template <typename T> struct H {
  typedef rust::Vec<T> V; typedef El<T> L;
  V *s[2]; M m[2];
  static uint32_t sv(const char *n) { return (uint32_t)sym_u64(32, n) & L::mask; }
  void check(int i) {
    const V &v = *s[i];
    sym_assert(v.size() == m[i].n, "size"); sym_assert(v.empty() == (m[i].n == 0), "empty"); sym_assert(v.capacity() >= m[i].n, "capacity");
    int same = 1; for (size_t k = 0; k < m[i].n && k < v.size(); k++) same = sym_and(same, L::val(v[k]) == m[i].v[k]); sym_assert(same, "elements");
  }
  void adopt(int i) { const V &v = *s[i]; size_t n = sym_concrete(v.size()); sym_assert(n < 24, "valid-size"); m[i].n = n; for (size_t k = 0; k < n; k++) m[i].v[k] = L::val(v[k]); }
  void fresh(int i, size_t n) { s[i] = new V(); m[i].n = n; for (size_t k = 0; k < n; k++) { m[i].v[k] = sv("e"); s[i]->push_back(L::mk(m[i].v[k])); } }
  void grow(int i, uint32_t v) { m[i].v[m[i].n++] = v; }
  enum { PUSH, PUSHC, EMPLACE, PUSH_OWN, EMPLACE_OWN, PUSH_OWN_MOVE, RESERVE, CLEAR, TRUNC, COPY_CTOR, MOVE_CTOR, COPY_ASSIGN, MOVE_ASSIGN, SWAP, AT, READ, WRITE, ILIST, NOPS };
  void step(unsigned op) {
    int i = sym_choice(2, "i"), j = 1 - i; V &v = *s[i];
    try {
      switch (op) {
      case PUSH: { uint32_t x = sv("x"); v.push_back(L::mk(x)); grow(i, x); break; }
      case PUSHC: { uint32_t x = sv("x"); const T t = L::mk(x); v.push_back(t); grow(i, x); sym_assert(L::val(t) == x, "argument-unchanged"); break; }
      case EMPLACE: { uint32_t x = sv("x"); v.emplace_back(L::mk(x)); grow(i, x); break; }
      case PUSH_OWN: if (m[i].n) { size_t k = sym_choice(m[i].n, "k"); uint32_t x = m[i].v[k]; v.push_back(static_cast<const V &>(v)[k]); grow(i, x); } break;
      case EMPLACE_OWN: if (m[i].n) { size_t k = sym_choice(m[i].n, "k"); uint32_t x = m[i].v[k]; v.emplace_back(static_cast<const V &>(v)[k]); grow(i, x); } break;
      case PUSH_OWN_MOVE: if (m[i].n) { size_t k = sym_choice(m[i].n, "k"); uint32_t x = m[i].v[k]; v.push_back(std::move(v[k])); grow(i, x); m[i].v[k] = L::val(static_cast<const V &>(v)[k]); } break;
      case RESERVE: { static const size_t C[] = {0, 1, 5, 9}; size_t c = C[sym_choice(4, "cap")]; v.reserve(c); sym_assert(v.capacity() >= c, "reserved"); break; }
      case CLEAR: v.clear(); m[i].n = 0; break;
      case TRUNC: { size_t c = sym_choice(4, "len"); v.truncate(c); if (m[i].n > c) m[i].n = c; break; }
      case COPY_CTOR: { V *t = new V(v); delete s[j]; s[j] = t; m[j] = m[i]; break; }
      case MOVE_CTOR: { V *t = new V(std::move(v)); delete s[j]; s[j] = t; m[j] = m[i]; adopt(i); break; }
      case COPY_ASSIGN: { int k = sym_choice(2, "self") ? i : j; V &r = (*s[k] = static_cast<const V &>(v)); sym_assert(&r == s[k], "assign-returns-this"); m[k] = m[i]; break; }
      case MOVE_ASSIGN: { int k = sym_choice(2, "self") ? i : j; M o = m[i]; *s[k] = std::move(v); m[k] = o; adopt(i); break; }
      case SWAP: { if (sym_choice(2, "swap")) v.swap(*s[j]); else { using std::swap; swap(v, *s[j]); } std::swap(m[0], m[1]); break; }
      case AT: { size_t k = (size_t)sym_u64(64, "idx"); bool threw = false; const T *p = nullptr;
        try { p = sym_choice(2, "const") ? &static_cast<const V &>(v).at(k) : &v.at(k); } catch (const std::out_of_range &) { threw = true; sym_reach("out-of-range"); } catch (...) { sym_assert(0, "at-throws-out_of_range"); }
        sym_assert(threw == (k >= m[i].n), "at-throws-iff-out-of-range"); if (!threw) { k = sym_concrete(k); sym_assert(p == v.data() + k, "at-address"); sym_assert(L::val(*p) == m[i].v[k], "at-value"); } break; }
      case READ: { const V &c = v; size_t k = 0; int same = 1; for (const T &t : c) { same = sym_and(same, L::val(t) == m[i].v[k]); k++; } sym_assert(same && k == m[i].n, "iterate"); k = 0; same = 1; for (T &t : v) { same = sym_and(same, L::val(t) == m[i].v[k]); k++; } sym_assert(same && k == m[i].n, "iterate-mut");
        sym_assert((size_t)(c.cend() - c.cbegin()) == m[i].n && (size_t)(v.end() - v.begin()) == m[i].n, "distance"); k = m[i].n; same = 1; for (auto it = c.end(); it != c.begin();) { --it; k--; same = sym_and(same, L::val(*it) == m[i].v[k]); } sym_assert(same && k == 0, "iterate-back");
        if (m[i].n) { sym_assert(sym_and(L::val(c.front()) == m[i].v[0], L::val(c.back()) == m[i].v[m[i].n - 1]), "front-back"); sym_assert(&v.front() == v.data() && &v.back() == v.data() + (m[i].n - 1) && c.data() == v.data(), "front-back-address"); } break; }
      case WRITE: if (m[i].n) { size_t k = sym_choice(m[i].n, "k"); uint32_t x = sv("x"), y = sv("y"); v[k] = L::mk(x); m[i].v[k] = x; v.back() = L::mk(y); m[i].v[m[i].n - 1] = y; *(v.begin() + k) = L::mk(y); m[i].v[k] = y; } break;
      case ILIST: { uint32_t x = sv("x"), y = sv("y"); V t{L::mk(x), L::mk(y), L::mk(x)}; *s[i] = std::move(t); m[i].n = 3; m[i].v[0] = x; m[i].v[1] = y; m[i].v[2] = x; break; }
      }
    } catch (int) { sym_reach("copy-threw"); if (op == COPY_ASSIGN) { adopt(0); adopt(1); } } // otherwise nothing may have changed
    check(0); check(1);
  }
  void run(int steps, size_t n0, size_t n1, bool tight, const int *ops = nullptr, int nops = NOPS) {
    uint64_t l0 = sym_live();
    fresh(0, n0); fresh(1, n1); if (tight) { V *t = new V(); t->reserve(n0); for (size_t k = 0; k < n0; k++) t->push_back(L::mk(m[0].v[k])); delete s[0]; s[0] = t; if (t->size() == t->capacity()) sym_reach("full"); }
    for (int t = 0; t < steps; t++) { unsigned o = sym_choice(nops, "op"); step(ops ? ops[o] : o); }
    delete s[0]; delete s[1]; tr_copies_left = -1;
    sym_assert(sym_live() == l0, "every-element-destroyed-once");
  }
};
extern "C" {
void h_u8() { H<uint8_t>().run(sym_tier() ? 3 : 2, sym_choice(3, "n0"), 1, true); }
void h_i64() { H<int64_t>().run(sym_tier() ? 3 : 2, 2, sym_choice(2, "n1"), sym_choice(2, "tight")); }
void h_f64() { H<double>().run(sym_tier() ? 2 : 1, 4, 1, true); }
void h_bool() { H<bool>().run(sym_tier() ? 2 : 1, 2, 1, true); }
void h_char() { H<char>().run(sym_tier() ? 2 : 1, 2, 1, true); }
void h_usize() { H<size_t>().run(sym_tier() ? 2 : 1, 4, 1, true); }
void h_string() { H<rust::String>().run(2, sym_choice(3, "n0"), 1, sym_choice(2, "tight")); }
void h_struct() { H<E>().run(2, sym_choice(3, "n0"), 1, sym_choice(2, "tight")); }
void h_tr() { int t = sym_choice(sym_tier() ? 5 : 4, "throw_at"); tr_copies_left = -1; H<Tr> h; 
  // the elements are in place before a copy may throw
  uint64_t l0 = sym_live(); h.fresh(0, 1 + sym_choice(2, "n0")); h.fresh(1, 1); if (sym_choice(2, "tight")) { rust::Vec<Tr> *v = new rust::Vec<Tr>(); v->reserve(h.m[0].n); for (size_t k = 0; k < h.m[0].n; k++) v->push_back(Tr(h.m[0].v[k])); delete h.s[0]; h.s[0] = v; }
  tr_copies_left = t - 1; int steps = 2; for (int k = 0; k < steps; k++) h.step(sym_choice(H<Tr>::NOPS, "op"));
  tr_copies_left = -1; delete h.s[0]; delete h.s[1]; sym_assert(sym_live() == l0, "every-element-destroyed-once"); }
void h_grow() { // growth through several reallocations
  H<rust::String> h; uint64_t l0 = sym_live(); h.fresh(0, 0); h.fresh(1, 0);
  for (int k = 0; k < 10; k++) { uint32_t x = h.sv("x"); h.s[0]->push_back(mkstr(x)); h.grow(0, x); } h.check(0);
  size_t c = sym_choice(12, "len"); h.s[0]->truncate(c); if (c < 10) h.m[0].n = c; h.check(0); *h.s[1] = *h.s[0]; h.m[1] = h.m[0]; h.check(1); delete h.s[0]; delete h.s[1]; sym_assert(sym_live() == l0, "every-element-destroyed-once");
}
void h_opaque() { // a vector of an opaque Rust type: everything but insertion
  uint64_t l0 = sym_live(); uint32_t a = sym_u64(32, "a"), b = sym_u64(32, "b"), c = sym_u64(32, "c");
  { rust::Vec<Op> v = op_vec(a, b); sym_assert(v.size() == 2 && v[0].get() == a && v[1].get() == b && v.at(1).get() == b && v.front().get() == a && v.back().get() == b, "opaque-elements");
    v[1].set(c); rust::Vec<Op> w(std::move(v)); sym_assert(v.size() == 0 && w[1].get() == c, "opaque-move"); bool threw = false; size_t k = sym_u64(64, "k"); try { sym_assert(w.at(k).get() == (k ? c : a), "opaque-at"); } catch (const std::out_of_range &) { threw = true; } sym_assert(threw == (k >= 2), "at-throws-iff-out-of-range");
    v.swap(w); uint32_t x = 0; for (auto &o : v) x = x * 31 + o.get(); sym_assert(x == a * 31 + c, "opaque-iterate"); v.truncate(sym_choice(4, "len")); v.reserve(7); rust::Vec<Op> u; u = std::move(v); u.clear(); u = op_vec(c, a); sym_assert(u[0].get() == c && u[1].get() == a && u.begin() + 2 == u.end(), "opaque-assign"); }
  sym_assert(sym_live() == l0, "every-element-destroyed-once");
}
void h_cross() { // seen from Rust
  uint64_t l0 = sym_live(); uint64_t x = sym_u64(64, "x"), y = sym_u64(64, "y"); uint32_t a = sym_u64(32, "a"), b = sym_u64(32, "b");
  { rust::Vec<uint64_t> v; v.push_back(x); rust::Vec<uint64_t> w = u64_roundtrip(std::move(v), y); sym_assert(w.size() == 2 && w[0] == x && w[1] == y && v.size() == 0, "crossing");
    rust::Vec<E> e; e.push_back(E{a, mkstr(1), 9}); e.emplace_back(E{b, mkstr(2), 9}); sym_assert(e_sum(e) == ((uint64_t)a + 2) * 3 + b + 2, "rust-sees-elements"); }
  sym_assert(sym_live() == l0, "every-element-destroyed-once");
}
}
