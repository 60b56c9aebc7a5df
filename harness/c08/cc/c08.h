#pragma once
#include "rust/cxx.h"
#include <memory>
#include <string>
#include <vector>
struct S; struct Sm; enum class E : uint8_t; struct Op;
typedef rust::Slice<const uint8_t> Sl;
struct Obj { uint32_t v; Obj(uint32_t); Obj(const Obj &); ~Obj(); uint32_t get(bool ok, Sl m) const; void set(bool ok, Sl m, uint32_t v); uint32_t val() const; uint32_t nofail_get(bool ok) const; };
std::unique_ptr<Obj> obj(uint32_t v); std::shared_ptr<Obj> sobj(uint32_t v); int32_t alive();
void t_unit(bool ok, Sl m, uint8_t how); uint8_t t_u8(bool ok, Sl m, uint8_t v); uint64_t t_u64(bool ok, Sl m, uint64_t v); bool t_bool(bool ok, Sl m, bool v); float t_f32(bool ok, Sl m, float v);
rust::String t_string(bool ok, Sl m, rust::Str v); rust::Str t_str(bool ok, Sl m, rust::Str v); rust::Slice<const uint32_t> t_slice(bool ok, Sl m, rust::Slice<const uint32_t> v); rust::Slice<uint32_t> t_slice_mut(bool ok, Sl m, rust::Slice<uint32_t> v);
rust::Box<Op> t_box(bool ok, Sl m, rust::Box<Op> v); rust::Vec<rust::String> t_vec(bool ok, Sl m, rust::Vec<rust::String> v); S t_struct(bool ok, Sl m, S v); Sm t_small(bool ok, Sl m, Sm v); E t_enum(bool ok, Sl m, E v);
const uint32_t &t_ref(bool ok, Sl m, const uint32_t &v); uint32_t *t_ptr(bool ok, Sl m, uint32_t *v);
std::unique_ptr<Obj> t_uptr(bool ok, Sl m, std::unique_ptr<Obj> v); std::shared_ptr<Obj> t_sptr(bool ok, Sl m, std::shared_ptr<Obj> v); std::unique_ptr<std::vector<Obj>> t_cxxvec(bool ok, Sl m, size_t n);
uint32_t nofail(bool ok, Sl m, uint8_t how); void nofail_unit(bool ok, Sl m);
// The documented customisation point: handles one more exception type, with a std::string message.
struct Odd { std::string s; };
namespace rust { namespace behavior {
template <typename Try, typename Fail> static void trycatch(Try &&func, Fail &&fail) noexcept try { func(); } catch (const Odd &o) { fail(o.s); } catch (const std::exception &e) { fail(e.what()); }
} }
