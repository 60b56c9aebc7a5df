#include "lib.rs.h"
#include "sym.h"
#include <array>
#include <stdexcept>
#include <string>
#include <vector>
template <typename T> static Probe pr(rust::Slice<T> s) { return Probe{(size_t)s.data(), s.size(), s.data() != nullptr && s.length() == s.size() && s.empty() == (s.size() == 0) && (size_t)(s.end() - s.begin()) == s.size()}; }
Probe c_probe(rust::Slice<const uint32_t> s) { return pr(s); } Probe c_probe8(rust::Slice<const uint8_t> s) { return pr(s); } Probe c_probe_mut(rust::Slice<uint64_t> s) { return pr(s); } Probe c_probe_s3(rust::Slice<const S3> s) { return pr(s); } Probe c_probe_str(rust::Slice<const rust::String> s) { return pr(s); }
void c_set(rust::Slice<uint32_t> s, size_t i, uint32_t x) { s[i] = x; }
rust::Slice<const uint32_t> c_part(rust::Slice<const uint32_t> s, size_t a, size_t b) { return {s.data() + a, b - a}; } rust::Slice<uint32_t> c_part_mut(rust::Slice<uint32_t> s, size_t a, size_t b) { return {s.data() + a, b - a}; }
rust::Slice<const uint64_t> c_default(rust::Slice<const uint64_t>) { return {}; } rust::Slice<const uint8_t> c_null(rust::Slice<const uint8_t>) { return {(const uint8_t *)nullptr, 0}; }
rust::Slice<const uint32_t> c_vec(const std::vector<uint32_t> &v) { return rust::Slice<const uint32_t>(v); }
std::unique_ptr<std::vector<uint32_t>> c_mk(size_t n, uint32_t x) { auto v = std::make_unique<std::vector<uint32_t>>(); for (size_t i = 0; i < n; i++) v->push_back(x ^ i); return v; }

// every law of a random-access iterator over s, whose elements start at base, for all offsets within it
template <typename T> static void iters(const rust::Slice<T> &s, size_t base, size_t n, size_t sz) {
  typedef typename rust::Slice<T>::iterator It;
  auto addr = [&](It it) { return (size_t)it.operator->(); };
  int64_t a = (int64_t)sym_range(0, n, "a"), b = (int64_t)sym_range(0, n, "b"); It z = s.begin();
  sym_assert(addr(z) == base && addr(s.end()) == base + n * sz, "begin-end"); sym_assert(s.end() - s.begin() == (int64_t)n && s.begin() - s.end() == -(int64_t)n, "distance");
  It p = z + a, q = z; q += b; It p2 = a + z;
  sym_assert(addr(p) == base + a * sz && addr(q) == base + b * sz && addr(p2) == addr(p), "advance");
  sym_assert(p - q == a - b, "difference"); sym_assert(p - (a - b) == q, "subtract"); sym_assert(q + (p - q) == p, "add-difference");
  It r = p; r -= a - b; sym_assert(addr(r) == addr(q), "subtract-assign"); It r2 = p; It &rr = (r2 += b - a); sym_assert(addr(r2) == addr(q) && &rr == &r2, "add-assign"); It r3 = p; It &r3r = (r3 -= 0); sym_assert(&r3r == &r3, "sub-assign-returns");
  sym_assert((size_t)&p[b - a] == addr(q), "index");
  sym_assert((p == q) == (a == b), "eq"); sym_assert((p != q) == (a != b), "ne"); sym_assert((p < q) == (a < b), "lt"); sym_assert((p <= q) == (a <= b), "le"); sym_assert((p > q) == (a > b), "gt"); sym_assert((p >= q) == (a >= b), "ge");
  It i = p; It j = i++; sym_assert(addr(j) == addr(p) && addr(i) == addr(p) + sz, "post-increment"); It k = i--; sym_assert(addr(k) == addr(p) + sz && addr(i) == addr(p), "post-decrement");
  It &m = ++i; sym_assert(&m == &i && addr(i) == addr(p) + sz, "pre-increment"); It &w = --i; sym_assert(&w == &i && addr(i) == addr(p), "pre-decrement");
  size_t c = 0; for (auto &e : s) { sym_assert((size_t)&e == base + c * sz, "element-address"); c++; } sym_assert(c == n, "iterate");
}
template <typename T> static void reads(const rust::Slice<T> &s, size_t base, size_t n, size_t sz) {
  sym_assert(s.size() == n && s.length() == n && s.empty() == (n == 0), "length"); sym_assert((size_t)s.data() == base || n == 0, "address"); sym_assert(s.data() != nullptr, "non-null");
  size_t k = (size_t)sym_u64(64, "k"); bool threw = false; size_t at = 0;
  try { at = (size_t)&s.at(k); } catch (const std::out_of_range &) { threw = true; sym_reach("out-of-range"); } catch (...) { sym_assert(0, "throws-out_of_range"); }
  sym_assert(threw == (k >= n), "at-throws-iff-out-of-range"); if (!threw) { sym_assert(at == base + k * sz, "at-address"); sym_assert((size_t)&s[k] == base + k * sz, "index-address"); }
  if (n) sym_assert((size_t)&s.front() == base && (size_t)&s.back() == base + (n - 1) * sz, "front-back");
}
template <typename T> static void all(T *p, size_t n) {
  rust::Slice<T> s(p, n); reads(s, (size_t)p, n, sizeof(T)); iters(s, (size_t)p, n, sizeof(T));
  rust::Slice<T> t(s), d; sym_assert(d.size() == 0 && d.empty() && d.data() != nullptr && (size_t)d.data() % alignof(T) == 0 && d.begin() == d.end(), "default-is-empty");
  d.swap(t); sym_assert(t.size() == 0 && d.size() == n && d.data() == s.data(), "swap"); t = std::move(d); sym_assert(t.size() == n && t.data() == s.data(), "move-assign");
}
#define N() sym_choice(sym_tier() ? 6 : 4, "n")
extern "C" {
void h_u8() { uint8_t a[6]; size_t n = N(); all<const uint8_t>(a, n); all<uint8_t>(a, n); Probe p = r_u8(rust::Slice<const uint8_t>(a, n)); sym_assert(p.len == n && p.valid && (n == 0 || p.ptr == (size_t)a), "rust-sees-slice"); }
void h_u64() { uint64_t a[6]; size_t n = N(); all<const uint64_t>(a, n); all<uint64_t>(a, n); Probe p = r_u64(rust::Slice<const uint64_t>(a, n)); sym_assert(p.len == n && p.valid && (n == 0 || p.ptr == (size_t)a), "rust-sees-slice"); }
void h_s3() { S3 a[6]; size_t n = N(); all<const S3>(a, n); all<S3>(a, n); Probe p = r_s3(rust::Slice<const S3>(a, n)); sym_assert(p.len == n && p.valid && (n == 0 || p.ptr == (size_t)a), "rust-sees-slice"); }
void h_string() { uint64_t l0 = sym_live(); { rust::String a[5] = {"a", "b", "c", "d", "e"}; size_t n = N(); all<const rust::String>(a, n); all<rust::String>(a, n); Probe p = r_str(rust::Slice<const rust::String>(a, n)); sym_assert(p.len == n && p.valid && (n == 0 || p.ptr == (size_t)a), "rust-sees-slice"); } sym_assert(sym_live() == l0, "leak"); }
void h_containers() {
  uint64_t l0 = sym_live();
  { std::vector<uint64_t> v(sym_choice(4, "n")); rust::Slice<const uint64_t> s((const std::vector<uint64_t> &)v); rust::Slice<uint64_t> m(v); rust::Slice dd(v); sym_assert(s.size() == v.size() && m.size() == v.size() && dd.size() == v.size() && (v.empty() || (s.data() == v.data() && m.data() == v.data() && dd.data() == v.data())), "from-vector");
    Probe p = r_u64(s); sym_assert(p.valid && p.len == v.size() && (v.empty() || p.ptr == (size_t)v.data()), "rust-sees-slice");
    std::array<uint32_t, 3> a; rust::Slice<const uint32_t> sa(a); sym_assert(sa.data() == a.data() && sa.size() == 3, "from-array"); std::array<uint32_t, 0> a0; rust::Slice<uint32_t> s0(a0); sym_assert(s0.size() == 0 && r_u32m(s0).valid, "from-empty-array");
    std::string st("abcd"); rust::Slice<const char> sc(st); sym_assert(sc.data() == st.data() && sc.size() == 4, "from-string"); rust::Vec<uint64_t> rv; rv.push_back(1); rust::Slice<const uint64_t> rs((const rust::Vec<uint64_t> &)rv); sym_assert(rs.data() == rv.data() && rs.size() == 1, "from-rust-vec");
    rust::Slice<const uint64_t> e; p = r_u64(e); sym_assert(p.valid && p.len == 0, "empty-valid-in-rust"); p = r_u8(rust::Slice<const uint8_t>((const uint8_t *)nullptr, 0)); sym_assert(p.valid && p.len == 0, "empty-valid-in-rust"); p = r_str({}); sym_assert(p.valid && p.len == 0, "empty-valid-in-rust"); p = r_s3({}); sym_assert(p.valid && p.len == 0, "empty-valid-in-rust");
    auto re = r_empty(); sym_assert(re.size() == 0 && re.data() && re.begin() == re.end(), "empty-from-rust"); s = re; sym_assert(s.size() == 0, "assign"); }
  sym_assert(sym_live() == l0, "leak");
}
void h_cxx_to_rust() {
  uint32_t a[5], keep[5]; for (int i = 0; i < 5; i++) keep[i] = a[i] = sym_u64(32, "x"); size_t n = sym_choice(6, "n"), from = sym_choice(n + 1, "from"), to = from + sym_choice(n - from + 1, "to");
  rust::Slice<const uint32_t> s(a, n); rust::Slice<const uint32_t> t = r_sub(s, from, to); sym_assert(t.size() == to - from && (t.empty() || t.data() == a + from) && t.data(), "returned-slice"); uint32_t h = 7; for (size_t i = from; i < to; i++) h = h * 31 ^ a[i]; sym_assert(r_sum(t) == h, "rust-reads-elements");
  uint32_t x = sym_u64(32, "y"); rust::Slice<uint32_t> m = r_sub_mut(rust::Slice<uint32_t>(a, n), from, to); sym_assert(m.size() == to - from && (m.empty() || m.data() == a + from) && m.data(), "returned-mut-slice"); r_fill(m, x);
  for (size_t i = 0; i < 5; i++) sym_assert(a[i] == (i >= from && i < to ? x + (uint32_t)(i - from) : keep[i]), "rust-writes-elements");
}
void h_opaque() { // element size known only to Rust
  uint64_t l0 = sym_live();
  { size_t n = sym_choice(4, "n"); uint32_t x = sym_u64(32, "x"); rust::Box<Ops> o = ops_new(n, x); auto s = o->all(); size_t sz = o->addr(1) - o->addr(0); reads(s, o->addr(0), n, sz); iters(s, o->addr(0), n, sz); for (size_t i = 0; i < n; i++) sym_assert(s[i].get() == (x ^ (uint32_t)i), "opaque-element"); auto m = o->all_mut(); sym_assert(m.size() == n, "opaque-mut"); if (n) { m.back().set(x); sym_assert(s.back().get() == x, "opaque-write"); } }
  sym_assert(sym_live() == l0, "leak");
}
}
