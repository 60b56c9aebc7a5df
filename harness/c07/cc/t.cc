#include "rust/cxx.h"
#include "lib.rs.h"
#include "sym.h"
#include "utf.h"
#include <cstring>
#include <exception>
#include <utility>
typedef rust::Slice<const uint8_t> Sl;
struct Msg { u8 b[64]; size_t n; Sl sl() const { return Sl(b, n); } };
static void text(const char *what, const Msg &m) { // what() is the message as a C string
  sym_assert(what != nullptr, "what-not-null"); size_t k = 0; while (k < m.n && m.b[k]) k++;
  sym_assert(eqn(what, m.b, k), "what-text"); sym_assert(what[k] == 0, "what-terminated");
}
template <typename F> static void call(bool ok, const Msg &m, F f) {
  bool threw = false; uint64_t l0 = sym_live();
  try { f(); } catch (const rust::Error &e) { threw = true; text(e.what(), m); const std::exception &x = e; text(x.what(), m); } catch (...) { sym_assert(0, "throws-rust-error"); }
  sym_assert(threw == !ok, "throws-iff-err"); sym_assert(sym_live() == l0, "leak-free"); if (threw) sym_reach("threw"); else sym_reach("returned");
}
static Msg sh() { Msg m; m.n = sym_choice(2, "n"); sym_bytes(m.b, m.n, "m"); for (size_t i = 0; i < m.n; i++) sym_assume(m.b[i] < 0x80); return m; }
#define OK() bool ok = sym_choice(2, "ok")
extern "C" {
void h_text() { // every short text, through every way of formatting it
  Msg m; m.n = sym_choice(sym_tier() ? 6 : 5, "n"); sym_bytes(m.b, m.n, "m"); sym_assume(ref_utf8(m.b, m.n)); OK(); uint8_t how = sym_choice(3, "how");
  call(ok, m, [&] { f_unit(ok, m.sl(), how); });
}
void h_text_long() { static const size_t L[] = {7, 8, 15, 16, 17, 23, 31, 32, 33, 63}; Msg m; m.n = L[sym_choice(10, "n")]; for (size_t i = 0; i < m.n; i++) m.b[i] = 'a' + i % 26; sym_bytes(m.b + m.n - 1, 1, "last"); sym_assume(m.b[m.n - 1] < 0x80); OK(); call(ok, m, [&] { f_unit(ok, m.sl(), sym_choice(3, "how")); }); }
void h_prim() { Msg m = sh(); OK(); uint64_t v = sym_u64(64, "v"); double d; memcpy(&d, &v, 8);
  switch (sym_choice(4, "fn")) {
  case 0: call(ok, m, [&] { sym_assert(f_u8(ok, m.sl(), (uint8_t)v) == (uint8_t)v, "ok-value"); }); break;
  case 1: call(ok, m, [&] { sym_assert(f_u64(ok, m.sl(), v) == v, "ok-value"); }); break;
  case 2: call(ok, m, [&] { sym_assert(f_bool(ok, m.sl(), v & 1) == (bool)(v & 1), "ok-value"); }); break;
  case 3: call(ok, m, [&] { double r = f_f64(ok, m.sl(), d); sym_assert(!memcmp(&r, &d, 8), "ok-value"); }); break;
  } }
void h_owned() { Msg m = sh(); OK(); uint32_t v = sym_u64(32, "v");
  switch (sym_choice(8, "fn")) {
  case 0: call(ok, m, [&] { rust::String s = f_string(ok, m.sl(), (uint8_t)v); sym_assert(s.size() == 2 && s.data()[0] == (char)(v & 0x7f) && s.data()[1] == 'x', "ok-value"); }); break;
  case 1: call(ok, m, [&] { rust::Box<Op> b = f_box(ok, m.sl(), v); sym_assert(b->get() == v, "ok-value"); }); break;
  case 2: call(ok, m, [&] { rust::Vec<uint32_t> s = f_vec(ok, m.sl(), v); sym_assert(s.size() == 2 && s[0] == v && s[1] == 7, "ok-value"); }); break;
  case 3: call(ok, m, [&] { S s = f_struct(ok, m.sl(), v); sym_assert(s.v == v && s.s == "ok" && s.w[8] == (uint16_t)v, "ok-value"); }); break;
  case 4: call(ok, m, [&] { Sm s = f_small(ok, m.sl(), (uint8_t)v); sym_assert(s.v == (uint8_t)v, "ok-value"); }); break;
  case 5: call(ok, m, [&] { E e = f_enum(ok, m.sl(), (uint8_t)v); sym_assert((uint8_t)e == (uint8_t)v, "ok-value"); }); break;
  case 6: { uint64_t l0 = sym_live(); auto p = std::make_unique<std::string>("0123456789012345678901234567890"); auto *raw = p.get(); bool threw = false; try { auto q = f_uptr(ok, m.sl(), std::move(p)); sym_assert(q.get() == raw, "ok-value"); } catch (const rust::Error &e) { threw = true; text(e.what(), m); } sym_assert(threw == !ok && !p, "throws-iff-err"); sym_assert(sym_live() == l0, "argument-released"); break; }
  case 7: { auto p = std::make_shared<std::string>("0123456789012345678901234567890"); call(ok, m, [&] { auto q = f_sptr(ok, m.sl(), p); sym_assert(q == p && p.use_count() == 2, "ok-value"); }); sym_assert(p.use_count() == 1, "argument-released"); break; }
  } }
void h_borrowed() { Msg m = sh(); OK(); uint32_t v = sym_u64(32, "v"), a[3] = {v, 1, 2};
  rust::Box<Op> o = mk(v);
  switch (sym_choice(6, "fn")) {
  case 0: { rust::Str s("hello"); call(ok, m, [&] { rust::Str t = f_str(ok, m.sl(), s); sym_assert(t.data() == s.data() && t.size() == 5, "ok-value"); }); break; }
  case 1: call(ok, m, [&] { auto t = f_slice(ok, m.sl(), rust::Slice<const uint32_t>(a, 3)); sym_assert(t.data() == a && t.size() == 3, "ok-value"); }); break;
  case 2: call(ok, m, [&] { const uint32_t &t = f_ref(ok, m.sl(), a[1]); sym_assert(&t == &a[1], "ok-value"); }); break;
  case 3: call(ok, m, [&] { const uint32_t *t = f_ptr(ok, m.sl(), sym_choice(2, "null") ? nullptr : a); sym_assert(t == a || !t, "ok-value"); }); break;
  case 4: call(ok, m, [&] { sym_assert(o->m(ok, m.sl()) == v, "ok-value"); }); break;
  case 5: { uint32_t w = sym_u64(32, "w"); call(ok, m, [&] { uint32_t &t = o->mm(ok, m.sl(), w); sym_assert(t == w, "ok-value"); t = 5; }); sym_assert(o->get() == (ok ? 5 : v), "no-effect-on-error"); break; }
  } }
void h_consume() { // arguments given away are released once, whether or not the call succeeds
  Msg m = sh(); OK(); uint64_t l0 = sym_live(); bool threw = false;
  { rust::Vec<rust::String> v; v.push_back("abc"); uint32_t x = sym_u64(16, "x"); rust::Box<Op> b = mk(x);
    try { size_t r = f_consume(ok, m.sl(), "hello", std::move(v), std::move(b)); sym_assert(r == 6 + x, "ok-value"); } catch (const rust::Error &e) { threw = true; text(e.what(), m); } }
  sym_assert(threw == !ok, "throws-iff-err"); sym_assert(sym_live() == l0, "leak-free");
}
// histories of rust::Error values
static rust::Error *err(Msg &m, size_t n) { m.n = n; sym_bytes(m.b, 2, "m"); sym_assume(m.b[0] - 1u < 0x7f && m.b[1] - 1u < 0x7f); for (size_t i = 2; i < n; i++) m.b[i] = 'x'; try { f_unit(false, m.sl(), 0); } catch (const rust::Error &e) { return new rust::Error(e); } return nullptr; }
void h_error_history() {
  uint64_t l0 = sym_live();
  { rust::Error *e[2]; Msg m[2]; bool has[2] = {true, true}; for (int i = 0; i < 2; i++) e[i] = err(m[i], i ? 5 : 2);
    auto chk = [&] { for (int i = 0; i < 2; i++) if (has[i]) text(e[i]->what(), m[i]); }; chk();
    int steps = sym_tier() ? 4 : 3;
    for (int t = 0; t < steps; t++) {
      unsigned op = sym_choice(7, "op"); int i = sym_choice(2, "i"), j = 1 - i;
      switch (op) {
      case 0: { rust::Error &r = (*e[j] = (const rust::Error &)*e[i]); sym_assert(&r == e[j], "assign-returns-this"); if (has[i]) m[j] = m[i]; has[j] = has[i]; break; }
      case 1: { *e[j] = std::move(*e[i]); if (has[i]) m[j] = m[i]; has[j] = has[i]; has[i] = false; break; }
      case 2: { *e[i] = (const rust::Error &)*e[i]; break; }
      case 3: { rust::Error *n = new rust::Error((const rust::Error &)*e[i]); delete e[j]; e[j] = n; m[j] = m[i]; has[j] = has[i]; break; }
      case 4: { rust::Error *n = new rust::Error(std::move(*e[i])); delete e[j]; e[j] = n; m[j] = m[i]; has[j] = has[i]; has[i] = false; break; }
      case 5: { try { throw *e[i]; } catch (rust::Error x) { if (has[i]) text(x.what(), m[i]); *e[i] = x; } break; }
      case 6: { try { try { throw rust::Error(*e[i]); } catch (const std::exception &x) { if (has[i]) text(x.what(), m[i]); throw; } } catch (rust::Error &x) { *e[j] = std::move(x); if (has[i]) m[j] = m[i]; has[j] = has[i]; } break; }
      }
      chk();
    }
    delete e[0]; delete e[1]; }
  sym_assert(sym_live() == l0, "leak-free");
}
void h_error_self_move() { uint64_t l0 = sym_live(); { Msg m; rust::Error *e = err(m, 2); *e = std::move(*e); rust::Error f(*e), g(std::move(*e)); *e = f; delete e; } sym_assert(sym_live() == l0, "leak-free"); }
}
