#include "lib.rs.h"
#include "sym.h"
#include <cstring>
#include <stdexcept>
static int count;
Obj::Obj(uint32_t v) : v(v) { count++; } Obj::Obj(const Obj &o) : v(o.v) { count++; } Obj::~Obj() { count--; v = 0xdead; }
int32_t alive() { return count; } std::unique_ptr<Obj> obj(uint32_t v) { return std::unique_ptr<Obj>(new Obj(v)); }
std::shared_ptr<Obj> sobj(uint32_t v) { return std::make_shared<Obj>(v); }
struct Mine : std::exception { std::string s; Mine(std::string s) : s(std::move(s)) {} const char *what() const noexcept override { return s.c_str(); } };
struct Other { long pad[3] = {1, 2, 3}; virtual ~Other() {} };
struct Multi : Other, Mine { Multi(std::string s) : Mine(std::move(s)) {} }; // std::exception is not at offset 0
struct Stat : std::exception { static char buf[80]; const char *what() const noexcept override { return buf; } }; char Stat::buf[80];
[[noreturn]] static void raise(Sl m, unsigned how) {
  std::string s((const char *)m.data(), m.size());
  switch (how) {
  case 0: throw std::runtime_error(s); case 1: throw std::logic_error(s); case 2: throw Mine(s); case 3: throw Multi(s);
  case 4: { memset(Stat::buf, 0, 80); memcpy(Stat::buf, s.data(), s.size()); throw Stat(); }
  case 5: case 6: throw Odd{s};
  default: throw 17; }
}
#define T if (!ok) raise(m, 2)
void t_unit(bool ok, Sl m, uint8_t how) { if (!ok) raise(m, how); }
uint8_t t_u8(bool ok, Sl m, uint8_t v) { T; return v; } uint64_t t_u64(bool ok, Sl m, uint64_t v) { T; return v; } bool t_bool(bool ok, Sl m, bool v) { T; return v; } float t_f32(bool ok, Sl m, float v) { T; return v; }
rust::String t_string(bool ok, Sl m, rust::Str v) { rust::String s(v.data(), v.size()); T; return s; } rust::Str t_str(bool ok, Sl m, rust::Str v) { T; return v; } rust::Slice<const uint32_t> t_slice(bool ok, Sl m, rust::Slice<const uint32_t> v) { T; return v; } rust::Slice<uint32_t> t_slice_mut(bool ok, Sl m, rust::Slice<uint32_t> v) { T; return v; }
rust::Box<Op> t_box(bool ok, Sl m, rust::Box<Op> v) { T; return v; } rust::Vec<rust::String> t_vec(bool ok, Sl m, rust::Vec<rust::String> v) { v.push_back("pushed"); T; return v; } S t_struct(bool ok, Sl m, S v) { T; return v; } Sm t_small(bool ok, Sl m, Sm v) { T; return v; } E t_enum(bool ok, Sl m, E v) { T; return v; }
const uint32_t &t_ref(bool ok, Sl m, const uint32_t &v) { T; return v; } uint32_t *t_ptr(bool ok, Sl m, uint32_t *v) { T; return v; }
std::unique_ptr<Obj> t_uptr(bool ok, Sl m, std::unique_ptr<Obj> v) { T; return v; } std::shared_ptr<Obj> t_sptr(bool ok, Sl m, std::shared_ptr<Obj> v) { T; return v; } std::unique_ptr<std::vector<Obj>> t_cxxvec(bool ok, Sl m, size_t n) { auto v = std::make_unique<std::vector<Obj>>(); for (size_t i = 0; i < n; i++) v->emplace_back((uint32_t)i); T; return v; }
uint32_t Obj::get(bool ok, Sl m) const { T; return v; } void Obj::set(bool ok, Sl m, uint32_t x) { T; v = x; } uint32_t Obj::val() const { return v; } uint32_t Obj::nofail_get(bool ok) const { if (!ok) throw std::runtime_error("no"); return v; }
uint32_t nofail(bool ok, Sl m, uint8_t how) { if (!ok) raise(m, how); return 5; } void nofail_unit(bool ok, Sl m) { T; }
