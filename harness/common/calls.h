// Values of every type class from a seed, their serialisation, and the drivers' vocabulary (included once per harness).
#include "sym.h"
#include <cstring>
#include <stdexcept>
struct Buf { size_t n; uint64_t a[1024]; };
static Buf bufs[2]; static Buf *cur; static int64_t alive; static std::shared_ptr<C> keep[32]; static size_t nkeep;
static void push(uint64_t v) { sym_assert(cur->n < 1024, "log-space"); cur->a[cur->n++] = v; }
struct Next { uint64_t v; size_t k; uint64_t sv; size_t sk; bool fail; };
static Buf *save; 
extern "C" { Next next; void calls_push(int w, uint64_t v) { cur = &bufs[w]; push(v); } int64_t calls_alive() { return alive; } uint64_t *tx_new(uint64_t v) { alive++; return new uint64_t(v); } void tx_free(uint64_t *p) { if (p) alive--; delete p; }
void calls_logged() { sym_assert(bufs[0].n == bufs[1].n, "everything-arrives"); for (size_t i = 0; i < bufs[0].n; i++) sym_assert(bufs[0].a[i] == bufs[1].a[i], "arrives-unchanged"); bufs[0].n = bufs[1].n = 0; }
void calls_reset() { while (nkeep) keep[--nkeep] = nullptr; bufs[0].n = bufs[1].n = 0; } }
Tx::Tx(uint64_t v) : p(tx_new(v)) {} Tx::Tx(const Tx &o) : p(tx_new(*o.p)) {} Tx::Tx(Tx &&o) noexcept : p(o.p) { o.p = nullptr; } Tx &Tx::operator=(Tx o) noexcept { std::swap(p, o.p); return *this; } Tx::~Tx() { tx_free(p); }
C::C(uint64_t v) : v(v), heap(new uint64_t(7)) { alive++; } C::~C() { delete heap; alive--; v = 0xdead; } uint64_t c_get(const C &c) { sym_assert(*c.heap == 7, "opaque-c++-value"); return c.v; } void c_set(C &c, uint64_t v) { c.v = v; }
static const size_t LEN[3] = {0, 3, 26};
static std::string text(uint64_t v, size_t k) { std::string s; for (size_t i = 0; i < LEN[k]; i++) s.push_back(i < 8 ? (char)((v >> (8 * i)) & 0x7f) : (char)('a' + i)); return s; }
static inline uint64_t ror(uint64_t v, int n) { return n ? v >> n | v << (64 - n) : v; }
template <class T, class = void> struct Val;
template <class T> void ser(const T &t) { Val<T>::ser(t); }
template <class It> void each(It b, size_t n) { push(n); for (size_t i = 0; i < n; i++) ser(b[i]); }
template <class T> struct Val<T, typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type> { static T mk(uint64_t v, size_t) { return (T)v; } static void ser(const T &t) { push((uint64_t)t); } };
template <> struct Val<bool> { static bool mk(uint64_t v, size_t) { return v & 1; } static void ser(const bool &t) { push(*(const uint8_t *)&t); } };
template <> struct Val<float> { static float mk(uint64_t v, size_t) { uint32_t x = v; float f; memcpy(&f, &x, 4); return f; } static void ser(const float &t) { uint32_t x; memcpy(&x, &t, 4); push(x); } };
template <> struct Val<double> { static double mk(uint64_t v, size_t) { double f; memcpy(&f, &v, 8); return f; } static void ser(const double &t) { uint64_t x; memcpy(&x, &t, 8); push(x); } };
template <> struct Val<std::string> { static std::string mk(uint64_t v, size_t k) { return text(v, k); } static void ser(const std::string &t) { each((const uint8_t *)t.data(), t.size()); } };
template <> struct Val<rust::String> { static rust::String mk(uint64_t v, size_t k) { return rust::String(text(v, k)); } static void ser(const rust::String &t) { each((const uint8_t *)t.data(), t.size()); } };
template <class T> struct Val<rust::Vec<T>> { static rust::Vec<T> mk(uint64_t v, size_t k) { rust::Vec<T> r; for (size_t i = 0; i < k; i++) r.push_back(Val<T>::mk(v >> (9 * i), (k + i) % 3)); return r; } static void ser(const rust::Vec<T> &t) { each(t.data(), t.size()); } };
template <> struct Val<R> { static void ser(const R &r) { push(r_get(r)); } };
template <> struct Val<rust::Vec<R>> { static rust::Vec<R> mk(uint64_t v, size_t k) { return mk_vr(v, k); } static void ser(const rust::Vec<R> &t) { push(t.size()); for (const R &r : t) ::ser(r); } };
template <class T> struct Val<std::vector<T>> { static std::vector<T> mk(uint64_t v, size_t k) { std::vector<T> r; for (size_t i = 0; i < k; i++) r.push_back(Val<T>::mk(v >> (9 * i), (k + i) % 3)); return r; } static void ser(const std::vector<T> &t) { each(t.data(), t.size()); } };
template <> struct Val<C> { static void ser(const C &c) { push(c_get(c)); } };
template <> struct Val<rust::Box<R>> { static rust::Box<R> mk(uint64_t v, size_t) { return mk_r(v); } static void ser(const rust::Box<R> &t) { ::ser(*t); } };
template <class T> void serp(const T &t) { push(t != nullptr); if (t) ::ser(*t); }
template <> struct Val<std::unique_ptr<C>> { static std::unique_ptr<C> mk(uint64_t v, size_t k) { return k ? mk_c(v) : nullptr; } static void ser(const std::unique_ptr<C> &t) { serp(t); } };
template <class T> struct Val<std::unique_ptr<T>> { static std::unique_ptr<T> mk(uint64_t v, size_t k) { return std::unique_ptr<T>(new T(Val<T>::mk(v, k))); } static void ser(const std::unique_ptr<T> &t) { serp(t); } };
template <> struct Val<std::shared_ptr<C>> { static std::shared_ptr<C> mk(uint64_t v, size_t k) { return k ? mk_sc(v) : nullptr; } static void ser(const std::shared_ptr<C> &t) { serp(t); } };
template <> struct Val<std::shared_ptr<uint64_t>> { static std::shared_ptr<uint64_t> mk(uint64_t v, size_t k) { return k ? mk_su64(v) : nullptr; } static void ser(const std::shared_ptr<uint64_t> &t) { serp(t); } };
template <> struct Val<std::weak_ptr<C>> { static std::weak_ptr<C> mk(uint64_t v, size_t k) { return k ? mk_wc(v) : std::weak_ptr<C>(); } static void ser(const std::weak_ptr<C> &t) { serp(t.lock()); } };
template <class T, size_t K> struct Val<std::array<T, K>> { static std::array<T, K> mk(uint64_t v, size_t k) { std::array<T, K> a; for (size_t i = 0; i < K; i++) a[i] = Val<T>::mk(v >> (9 * i), (k + i) % 3); return a; } static void ser(const std::array<T, K> &t) { each(t.data(), K); } };
template <> struct Val<Tx> { static Tx mk(uint64_t v, size_t) { return Tx(v); } static void ser(const Tx &t) { push(*t.p); } };
#define M(f, s) Val<decltype(T::f)>::mk(ror(v, s), k)
#define ST(t, mkf, serf) template <> struct Val<t> { typedef t T; static T mk(uint64_t v, size_t k) { return T{mkf}; } static void ser(const T &x) { serf } };
#define S(f) ::ser(x.f);
#define COMMA ,
ST(P1, M(a, 0), S(a)) ST(P2, M(a, 0) COMMA M(b, 8), S(a) S(b)) ST(F2, M(a, 0) COMMA M(b, 32), S(a) S(b)) ST(FI, M(a, 0) COMMA M(b, 32), S(a) S(b)) ST(Q2, M(a, 0) COMMA M(b, 1), S(a) S(b)) ST(Q3, M(a, 0) COMMA M(b, 1) COMMA M(c, 2), S(a) S(b) S(c)) ST(D4, M(a, 0) COMMA M(b, 8) COMMA M(c, 16) COMMA M(d, 24), S(a) S(b) S(c) S(d)) ST(N, M(s, 0) COMMA M(x, 8) COMMA M(v, 16), S(s) S(x) S(v)) ST(Ar, M(a, 0) COMMA M(b, 8), S(a) S(b)) ST(Nest, M(p, 0) COMMA M(e, 8) COMMA M(f, 16), S(p) S(e) S(f)) ST(T1, M(a, 0) COMMA M(b, 32), S(a) S(b)) ST(T3, M(a, 0) COMMA M(b, 1) COMMA M(c, 2), S(a) S(b) S(c))
template <> struct Val<rust::Box<N>> { static rust::Box<N> mk(uint64_t v, size_t k) { return rust::Box<N>(Val<N>::mk(v, k)); } static void ser(const rust::Box<N> &t) { ::ser(*t); } };
std::unique_ptr<C> mk_c(uint64_t v) { return std::unique_ptr<C>(new C(v)); } std::shared_ptr<C> mk_sc(uint64_t v) { return std::make_shared<C>(v); } std::weak_ptr<C> mk_wc(uint64_t v) { sym_assert(nkeep < 32, "keep-space"); return keep[nkeep++] = mk_sc(v); } std::shared_ptr<uint64_t> mk_su64(uint64_t v) { return std::make_shared<uint64_t>(v); }
std::unique_ptr<std::string> mk_cs(uint64_t v, size_t k) { return Val<std::unique_ptr<std::string>>::mk(v, k); } std::unique_ptr<std::vector<uint32_t>> mk_cv(uint64_t v, size_t k) { return Val<std::unique_ptr<std::vector<uint32_t>>>::mk(v, k); } std::unique_ptr<std::vector<N>> mk_cvn(uint64_t v, size_t k) { return Val<std::unique_ptr<std::vector<N>>>::mk(v, k); }
// -- called side
template <class T> void log_(const T &t) { cur = &bufs[0]; ser(t); cur = &bufs[0]; } static void loga(size_t a) { calls_push(0, a); } template <class T> void logr(const T &t) { loga((size_t)&t); log_(t); }
template <class S> void slice_(int w, const S &s) { cur = &bufs[w]; push(s.size() ? (size_t)s.data() : 0); push(s.size()); for (auto &x : s) { cur = &bufs[w]; ser(x); } } template <class S> void log_slice(const S &s) { slice_(0, s); }
static void str_(int w, rust::Str s) { cur = &bufs[w]; push(s.size() ? (size_t)s.data() : 0); each((const uint8_t *)s.data(), s.size()); } static void log_str(rust::Str s) { str_(0, s); }
template <class T> void put(T &t, uint64_t v, size_t k) { t = Val<T>::mk(v, k); } static void put(R &r, uint64_t v, size_t) { r_set(r, v); } static void put(C &c, uint64_t v, size_t) { c_set(c, v); } template <class T> void put(std::vector<T> &t, uint64_t v, size_t k) { for (size_t i = 0; i < t.size(); i++) t[i] = Val<T>::mk(v + i, k); }
template <class T> void set(T &t) { put(t, next.sv, next.sk); } template <class S> void set_slice(S s) { size_t i = 0; for (auto &x : s) put(x, next.sv + i++, next.sk); }
// -- calling side
struct Data { size_t k; bool fail; Data fallible() const { bool f = sym_choice(2, "fail"); next.fail = f; return Data{k, f}; } };
template <class T> T val(const Data &d, size_t i) { return Val<T>::mk(sym_u64(64, "seed"), (d.k + i) % 3); }
template <class T> struct Own { T t; Own(const Data &d, size_t i) : t(val<T>(d, i)) {} T &get() { return t; } void *ptr() { return &t; } size_t addr() { return (size_t)ptr(); } };
template <> struct Own<R> { rust::Box<R> t; Own(const Data &, size_t) : t(mk_r(sym_u64(64, "seed"))) {} R &get() { return *t; } void *ptr() { return &*t; } size_t addr() { return (size_t)ptr(); } };
template <> struct Own<C> { C t; Own(const Data &, size_t) : t(sym_u64(64, "seed")) {} C &get() { return t; } void *ptr() { return &t; } size_t addr() { return (size_t)ptr(); } };
template <class T> struct Vals { std::vector<T> t; Vals(const Data &d, size_t i) { uint64_t v = sym_u64(64, "seed"); for (size_t j = 0; j < (d.k + i) % 3; j++) t.push_back(Val<T>::mk(v >> (9 * j), (d.k + j) % 3)); } rust::Slice<T> slice() { return rust::Slice<T>(t.data(), t.size()); } rust::Slice<const T> cslice() { return rust::Slice<const T>(t.data(), t.size()); } };
template <> struct Vals<R> { rust::Vec<R> t; Vals(const Data &d, size_t i) : t(mk_vr(sym_u64(64, "seed"), (d.k + i) % 3)) {} rust::Slice<R> slice() { return rust::Slice<R>(t); } rust::Slice<const R> cslice() { return rust::Slice<const R>(t); } };
template <class T> void exp_(const T &t) { cur = &bufs[1]; ser(t); } static void expa(size_t a) { calls_push(1, a); } template <class S> void exp_slice(const S &s) { slice_(1, s); } static void exp_str(rust::Str s) { str_(1, s); }
template <class T> void same(const T &r, const Data &) { log_(r); exp_(Val<T>::mk(next.v, next.k)); }
static void logged() { calls_logged(); }
template <class T> void expect_(const T &, uint64_t v, size_t k) { exp_(Val<T>::mk(v, k)); } static void expect_(const R &, uint64_t v, size_t) { calls_push(1, v); } static void expect_(const C &, uint64_t v, size_t) { calls_push(1, v); } template <class T> void expect_(const std::vector<T> &t, uint64_t v, size_t k) { calls_push(1, t.size()); for (size_t i = 0; i < t.size(); i++) exp_(Val<T>::mk(v + i, k)); }
template <class T> void seen(const T &t, const Data &) { log_(t); expect_(t, next.sv, next.sk); logged(); }
template <class S> void seen_slice(S s, const Data &) { size_t i = 0; for (auto &x : s) { log_(x); expect_(x, next.sv + i++, next.sk); } logged(); }
static void same_str(rust::Str r, rust::Str s) { bool e = !s.empty(); sym_assert(r.size() == s.size() - e && r.data() == s.data() + e, "returned-str"); }
template <class S, class Q> void same_slice(S r, Q s) { size_t e = !s.empty(); sym_assert(r.size() == s.size() - e, "returned-slice"); if (r.size()) { auto it = s.begin(); ++it; sym_assert(&*r.begin() == &*it, "returned-slice"); } }
template <class F> void run(F f) {
  uint64_t l0 = sym_live(); int64_t a0 = alive; size_t k = sym_choice(3, "shape"); next = Next{sym_u64(64, "returned"), k, sym_range(0, ~0ull - 10, "assigned"), (k + 1) % 3, false};
  f(Data{k, false}); calls_reset(); sym_assert(sym_live() == l0, "destroyed-once"); sym_assert(alive == a0, "destructor-once"); sym_reach("done");
}
