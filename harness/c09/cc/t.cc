#include "lib.rs.h"
#include "sym.h"
#include <memory>
#include <string>
// Any C++ observation after a panic is a violation: nothing after a call that panicked, no catch block, no destructor of
// the calling frame, and no exception object.
static bool bad;
static bool pick() { bad = sym_u64(1, "bad"); sym_expect_abort(bad); return bad; }
static void seen(const char *id) { sym_assert(!bad, id); }
struct Witness { ~Witness() { seen("no-unwinding-through-c++"); } };
template <typename F> static void run(F f) {
  uint64_t l0 = sym_live();
  try { Witness w; f(); seen("no-return-after-panic"); } catch (const std::exception &) { seen("no-exception-from-panic"); throw; } catch (...) { seen("panic-not-visible-to-c++"); throw; }
  sym_assert(sym_live() == l0, "leak-free"); sym_reach("returned");
}
uint32_t cxx_calls_rust(bool b) { Witness w; try { uint32_t v = uint32_t(f_u64(b, 8)); seen("no-return-after-panic"); return v; } catch (...) { seen("panic-not-visible-to-c++"); throw; } }
uint32_t cxx_calls_rust_res(bool b) { Witness w; f_res(b, true); seen("no-return-after-panic"); return 9; }
uint32_t call_cb(rust::Fn<uint32_t(bool, uint32_t)> f, bool b, uint32_t v) { Witness w; try { uint32_t r = f(b, v); seen("no-return-after-panic"); return r; } catch (...) { seen("panic-not-visible-to-c++"); throw; } }
extern "C" {
void h_kinds() { unsigned how = sym_choice(8, "how"); bad = how != 0; sym_expect_abort(bad); run([&] { f_kind(how); }); }
void h_values() {
  unsigned k = sym_choice(10, "fn"); uint64_t v = sym_u64(64, "v");
  run([&] { switch (k) {
    case 0: sym_assert(f_u64(pick(), v) == v, "value"); break;
    case 1: { std::string s("hello"); rust::String r = f_string(pick(), s); sym_assert(r == "hello", "value"); break; }
    case 2: { rust::Str s = "hey"; sym_assert(f_str(pick(), s).size() == 3, "value"); break; }
    case 3: { uint32_t a[2] = {1, 2}; sym_assert(f_slice(pick(), rust::Slice<uint32_t>(a, 2)).data() == a, "value"); break; }
    case 4: { auto b = op(4); sym_assert(f_box(pick(), std::move(b))->get(false) == 4, "value"); break; }
    case 5: { rust::Vec<rust::String> x; x.push_back("q"); sym_assert(f_vec(pick(), std::move(x)).size() == 1, "value"); break; }
    case 6: { S s{5, "t"}; sym_assert(f_struct(pick(), std::move(s)).v == 5, "value"); break; }
    case 7: { std::unique_ptr<std::string> u(new std::string("u")); sym_assert(*f_uptr(pick(), std::move(u)) == "u", "value"); break; }
    case 8: { auto u = std::make_shared<std::string>("u"); sym_assert(*f_sptr(pick(), u) == "u", "value"); break; }
    case 9: { uint32_t x = 3; sym_assert(&f_ref(pick(), x) == &x, "value"); break; } } });
}
void h_methods() {
  unsigned k = sym_choice(3, "fn"); uint32_t v = sym_u64(32, "v");
  run([&] { auto o = op(v); switch (k) {
    case 0: sym_assert(o->get(pick()) == v, "value"); break; case 1: o->set(pick(), v + 1); sym_assert(o->get(false) == v + 1, "value"); break;
    case 2: sym_assert(o->try_get(pick()) == v, "value"); break; } });
}
void h_fallible() { // panics in functions returning Result, and while the error is turned into text
  unsigned k = sym_choice(3, "fn"); bool ok = sym_u64(1, "ok"); bool b = sym_u64(1, "bad"); bad = b && (k == 0 || !ok); sym_expect_abort(bad); bool threw = false;
  uint64_t l0 = sym_live(); try { Witness w; if (k == 0) f_res(b, ok); else if (k == 1) f_errfmt(b, ok); else f_fmterr(b, ok); seen("no-return-after-panic"); } catch (const rust::Error &) { seen("no-exception-from-panic"); threw = true; } catch (...) { seen("panic-not-visible-to-c++"); throw; }
  sym_assert(threw == !ok, "result"); sym_assert(sym_live() == l0, "leak-free"); sym_reach("returned");
}
void h_drop() { // destructors of Rust values owned by C++
  unsigned k = sym_choice(6, "fn");
  run([&] { switch (k) {
    case 0: { auto b = bomb(pick()); break; }
    case 1: { auto b = bomb(pick()), c = bomb(false); b = std::move(c); seen("no-return-after-panic"); break; }
    case 2: { auto b = bomb(pick()); Bomb *q = b.into_raw(); auto c = rust::Box<Bomb>::from_raw(q); break; }
    case 3: { size_t n = sym_choice(4, "n"), at = sym_choice(4, "at"); bad = at < n; auto v = bombs(n, at); sym_expect_abort(bad); break; }
    case 4: { size_t n = 3, at = sym_choice(4, "at"), to = sym_choice(4, "to"); auto v = bombs(n, at); bad = at < n && at >= to; sym_expect_abort(bad); v.truncate(to); seen("no-return-after-panic"); bad = at < n; sym_expect_abort(bad); break; }
    case 5: { bool c = sym_u64(1, "clear"); rust::Vec<Bomb> v; push(v, pick()); push(v, false); if (c) v.clear(); else v = rust::Vec<Bomb>(); seen("no-return-after-panic"); break; } } });
}
void h_operators() { // generated comparison and hashing
  unsigned k = sym_choice(7, "op"); uint8_t a = sym_u64(8, "a"), b = sym_u64(8, "b"); bad = a > 250; D x{Tv{a}}, y{Tv{b}};
  // a field type that implements the operator in C++ too may be compared there; either way no panic escapes
  sym_expect_abort(bad); uint64_t l0 = sym_live(); bool r = false, want = false; bool w0 = bad; bad = false;
  struct W2 { bool on; ~W2() { sym_assert(!on, "no-unwinding-through-c++"); } };
  try { W2 w{false}; w.on = w0; switch (k) { case 0: r = x == y; want = a == b; break; case 1: r = x != y; want = a != b; break; case 2: r = x < y; want = a < b; break; case 3: r = x <= y; want = a <= b; break; case 4: r = x > y; want = a > b; break; case 5: r = x >= y; want = a >= b; break; case 6: r = std::hash<D>()(x) == std::hash<D>()(D{Tv{a}}); want = true; break; } w.on = false; }
  catch (...) { sym_assert(0, "panic-not-visible-to-c++"); throw; }
  sym_assert(r == want, "value"); sym_assert(sym_live() == l0, "leak-free"); sym_reach("returned");
}
void h_nested() { // C++ -> Rust -> C++ -> Rust, and function pointers
  unsigned k = sym_choice(3, "fn");
  run([&] { switch (k) { case 0: sym_assert(f_back(pick()) == 9, "value"); break; case 1: sym_assert(f_back_res(pick()) == 9, "value"); break; case 2: sym_assert(with_cb(pick()) == 6, "value"); break; } });
}
void h_capacity() { // the runtime's own panics
  unsigned k = sym_choice(3, "fn"); bool huge = sym_u64(1, "bad"); bad = huge; sym_expect_abort(huge); size_t n = huge ? (size_t)-1 - sym_u64(4, "less") : 5;
  run([&] { switch (k) { case 0: { rust::String s("x"); s.reserve(n); seen("no-return-after-panic"); break; } case 1: { rust::Vec<uint32_t> v; v.reserve(n); seen("no-return-after-panic"); break; } case 2: { auto v = bombs(1, 1); v.reserve(n); seen("no-return-after-panic"); break; } } });
}
}
