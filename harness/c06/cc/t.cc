#include "lib.rs.h"
#include "sym.h"
#include "utf.h"
#include <utility>
int tr_copies_left = -1;
extern "C" void tr_free(uint32_t *p) { delete p; }
uint32_t cc_take(rust::Box<Op> b) { return b->get(); }
rust::Box<Op> cc_pass(rust::Box<Op> b, uint32_t x) { b->set(b->get() ^ x); return b; }
uint32_t cc_peek(const rust::Box<Op> &b) { return b->get(); }
rust::Box<S> cs_pass(rust::Box<S> b, uint32_t x) { b->v ^= x; return b; }
rust::Box<S> cs_new(uint32_t v) { return rust::Box<S>(S{v, "new", 7}); }
void cc_ref(rust::Box<Op> &b, uint32_t v) { b = op_new(v); }
// per box type: making, reading, writing
struct KOp { typedef Op T; static rust::Box<Op> mk(uint32_t v, unsigned) { return op_new(v); } static uint32_t get(const rust::Box<Op> &b) { return b->get(); } static void set(rust::Box<Op> &b, uint32_t v) { (*b).set(v); } static uint32_t take(rust::Box<Op> b) { return op_take(std::move(b)); } static rust::Box<Op> pass(rust::Box<Op> b, uint32_t x) { return op_pass(std::move(b), x); } static const bool counted = true; };
struct KS { typedef S T; static rust::Box<S> mk(uint32_t v, unsigned h) { S s{v, "hello", 9}; if (h == 0) return s_new(v); if (h == 1) { rust::Box<S> b((const S &)s); sym_assert(s.v == v && s.s == "hello", "source-kept"); return b; } if (h == 2) return rust::Box<S>(std::move(s)); return rust::Box<S>::in_place(v, rust::String("x"), (uint8_t)3); } static uint32_t get(const rust::Box<S> &b) { sym_assert(s_peek(*b) == b->v, "both-sides-agree"); return b->v; } static void set(rust::Box<S> &b, uint32_t v) { b->v = v; (*b).s = "long string long string"; } static uint32_t take(rust::Box<S> b) { return s_take(std::move(b)); } static rust::Box<S> pass(rust::Box<S> b, uint32_t x) { return s_pass(std::move(b), x); } static const bool counted = false; };
struct Mo { bool has; uint32_t v; size_t at; };
template <typename K> struct H {
  typedef rust::Box<typename K::T> B; B *s[2]; Mo m[2]; uint32_t dropped = 0, d0 = op_drops();
  size_t addr(const B &b) { return (size_t)&*b; }
  void gone(int i) { if (m[i].has) dropped++; m[i].has = false; }
  void check() { for (int i = 0; i < 2; i++) if (m[i].has) { sym_assert(addr(*s[i]) == m[i].at, "stable-address"); sym_assert(K::get(*s[i]) == m[i].v, "value"); } if (K::counted) sym_assert(op_drops() - d0 == dropped, "dropped-exactly-once"); }
  void fresh(int i) { m[i].v = sym_u64(32, "v"); s[i] = new B(K::mk(m[i].v, sym_choice(K::counted ? 1 : 4, "ctor"))); m[i].has = true; m[i].at = addr(*s[i]); }
  enum { MOVE_CTOR, MOVE_ASSIGN, SWAP, RAW, SET, TAKE, PASS, REPLACE, RETURN, NOPS };
  void step(unsigned op) {
    int i = sym_choice(2, "i"), j = 1 - i;
    switch (op) {
    case MOVE_CTOR: { B *t = new B(std::move(*s[i])); Mo o = m[i]; m[i].has = false; delete s[j]; gone(j); s[j] = t; m[j] = o; break; }
    case MOVE_ASSIGN: if (sym_choice(2, "self")) { bool h = m[i].has; *s[i] = std::move(*s[i]); gone(i); (void)h; } else { Mo o = m[i]; B &r = (*s[j] = std::move(*s[i])); sym_assert(&r == s[j], "assign-returns-this"); gone(j); m[j] = o; m[i].has = false; } break;
    case SWAP: { unsigned k = sym_choice(3, "swap"); if (k == 0) s[i]->swap(*s[j]); else if (k == 1) { using std::swap; swap(*s[i], *s[j]); } else std::swap(*s[i], *s[j]); std::swap(m[0], m[1]); break; }
    case RAW: if (m[i].has) { auto *p = s[i]->into_raw(); sym_assert((size_t)p == m[i].at, "into_raw-address"); Mo o = m[i]; m[i].has = false; check(); B b = B::from_raw(p); sym_assert(addr(b) == o.at && K::get(b) == o.v, "from_raw-same"); int k = sym_choice(2, "back") ? i : j; gone(k); *s[k] = std::move(b); m[k] = o; } break;
    case SET: if (m[i].has) { m[i].v = sym_u64(32, "w"); K::set(*s[i], m[i].v); } break;
    case TAKE: if (m[i].has) { uint32_t v = K::take(std::move(*s[i])); sym_assert(v == m[i].v, "taken-value"); gone(i); } break;
    case PASS: if (m[i].has) { uint32_t x = sym_u64(32, "x"); B b = K::pass(std::move(*s[i]), x); m[i].v ^= x; Mo o = m[i]; m[i].has = false; sym_assert(addr(b) == o.at, "address-through-rust"); gone(j); *s[j] = std::move(b); m[j] = o; } break;
    case REPLACE: delete s[i]; gone(i); fresh(i); break;
    case RETURN: if (m[i].has) { auto f = [](B b) { return b; }; B b = f(f(std::move(*s[i]))); B c(std::move(b)); *s[i] = std::move(c); } break;
    }
    check();
  }
  void run(int steps) { uint64_t l0 = sym_live(); fresh(0); fresh(1); check(); for (int t = 0; t < steps; t++) step(sym_choice(NOPS, "op")); delete s[0]; gone(0); delete s[1]; gone(1); check(); sym_assert(sym_live() == l0, "leak-free"); }
};
extern "C" {
void h_opaque() { H<KOp>().run(sym_tier() ? 4 : 3); }
void h_struct() { H<KS>().run(sym_tier() ? 3 : 2); }
void h_throw() { // construction of the boxed value throws
  uint64_t l0 = sym_live();
  { C c{(uint32_t)sym_u64(32, "v"), Tr(sym_u64(32, "w"))}; uint32_t w = *c.t.p; int t = sym_choice(3, "throw_at"), how = sym_choice(3, "how"); bool threw = false; tr_copies_left = t == 2 ? -1 : t;
    try { if (how == 0) { rust::Box<C> b((const C &)c); sym_assert(b->v == c.v && *b->t.p == w && *c.t.p == w && b->t.p != c.t.p, "copied"); } else if (how == 1) { rust::Box<C> b = rust::Box<C>::in_place(c.v, (const Tr &)c.t); sym_assert(b->v == c.v && *b->t.p == w, "in_place"); } else { rust::Box<C> b(std::move(c)); sym_assert(*b->t.p == w && c.t.p == nullptr, "moved"); } } catch (int) { threw = true; sym_reach("threw"); }
    tr_copies_left = -1; sym_assert(threw == (t == 0 && how < 2), "throws-iff-value-does"); }
  sym_assert(sym_live() == l0, "leak-free");
}
void h_fields() { // boxes inside shared structs and vectors
  uint64_t l0 = sym_live(); uint32_t d0 = op_drops(), v = sym_u64(32, "v"), x = sym_u64(32, "x");
  { W w = w_new(v); sym_assert(w.b->get() == v && w.n == 3 && w.s->v == v, "field"); W u(std::move(w)); sym_assert(op_drops() == d0, "moved"); u.b->set(x); sym_assert(op_peek(u.b) == x, "field-borrow"); W z{op_new(x), 3, rust::Box<S>(S{x, "a", 1})}; op_swap(u.b, z.b); std::swap(u, z); sym_assert(w_take(std::move(u)) == (x ^ x), "field-to-rust"); sym_assert(op_drops() == d0 + 1, "dropped-in-rust"); }
  sym_assert(op_drops() == d0 + 2, "dropped-once"); { auto vec = vec_new(v); sym_assert(vec.size() == 2 && vec[1].b->get() == v, "vec"); rust::Box<Op> o = std::move(vec[0].b); vec[0].b = op_new(x); vec.truncate(1); sym_assert(op_drops() == d0 + 3 && o->get() == v, "moved-out-of-vec"); vec.emplace_back(w_new(x)); vec.push_back(W{std::move(o), 1, s_new(1)}); } sym_assert(op_drops() == d0 + 6, "dropped-once");
  { rust::Box<Zst> z = zst_new(); rust::Box<Zst> y(std::move(z)); if (sym_choice(2, "take")) zst_take(std::move(y)); rust::Box<Big> g = big_new((uint8_t)v), h = big_new(1); sym_assert((size_t)&*g % 64 == 0, "aligned"); std::swap(g, h); sym_assert(h->bv() == (uint8_t)v, "big"); }
  sym_assert(sym_live() == l0, "leak-free");
}
}
