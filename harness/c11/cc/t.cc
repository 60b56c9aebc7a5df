#include "lib.rs.h"
#include "sym.h"
#include <cstring>
static int count;
Obj::Obj(uint32_t v) : v(v), p(new uint8_t(1)) { count++; } Obj::Obj(const Obj &o) : v(o.v), p(new uint8_t(1)) { count++; } Obj::Obj(Obj &&o) noexcept : v(o.v), p(o.p) { o.p = nullptr; count++; }
Obj &Obj::operator=(const Obj &o) { v = o.v; return *this; } Obj::~Obj() { delete p; count--; } uint32_t Obj::val() const { return v; } void Obj::set(uint32_t x) { v = x; } int32_t alive() { return count; }
static std::string str(uint32_t x) { return std::string((char *)&x, 4); }
static Sh sh(uint32_t x) { char b[4] = {char(x & 0x7f), '-', '-', char(x >> 8 & 0x7f)}; return Sh{x, rust::String(b, 4)}; }
static bool same(const Obj &o, uint32_t x) { return o.v == x; } static bool same(const std::string &s, uint32_t x) { return s.size() == 4 && !memcmp(s.data(), &x, 4); } static bool same(const Sh &s, uint32_t x) { return s.v == x && s.s == sh(x).s; } static bool same(const Tr &s, uint32_t x) { return s.a == x && s.b == uint8_t(x); }
#define FATD(T, n, make) std::unique_ptr<std::vector<T>> mk_##n(Sl<uint32_t> v) { auto r = std::make_unique<std::vector<T>>(); for (uint32_t x : v) r->push_back(make(x)); return r; } bool is_##n(const std::vector<T> &v, Sl<uint32_t> w) { if (v.size() != w.size()) return false; for (size_t i = 0; i < v.size(); i++) if (!same(v[i], w[i])) return false; return true; } void add_##n(std::vector<T> &v, uint32_t x) { v.push_back(make(x)); } void rem_##n(std::vector<T> &v) { if (!v.empty()) v.pop_back(); }
static Tr tr(uint32_t x) { return Tr{x, uint8_t(x)}; }
FATD(Obj, obj, Obj) FATD(std::string, str, str) FATD(Sh, sh, sh) FATD(Tr, tr, tr)
#define PRIMD(T, n) std::unique_ptr<std::vector<T>> mk_##n(Sl<T> v) { auto r = std::make_unique<std::vector<T>>(); for (T x : v) r->push_back(x); return r; } bool is_##n(const std::vector<T> &v, Sl<T> w) { if (v.size() != w.size()) return false; for (size_t i = 0; i < v.size(); i++) if (memcmp(&v[i], &w[i], sizeof(T))) return false; return true; } void add_##n(std::vector<T> &v, T x) { v.push_back(x); } void rem_##n(std::vector<T> &v) { if (!v.empty()) v.pop_back(); }
PRIMD(uint8_t, u8) PRIMD(uint16_t, u16) PRIMD(uint32_t, u32) PRIMD(uint64_t, u64) PRIMD(size_t, usize) PRIMD(int8_t, i8) PRIMD(int16_t, i16) PRIMD(int32_t, i32) PRIMD(int64_t, i64) PRIMD(rust::isize, isize) PRIMD(float, f32) PRIMD(double, f64)
