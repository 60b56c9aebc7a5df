#pragma once
#include "rust/cxx.h"
#include <cstdint>
#include <memory>
#include <string>
struct Sh; struct Hold; enum class En : uint8_t;
int32_t alive();
struct Obj { uint32_t v; uint8_t *p; Obj(uint32_t); Obj(const Obj &) = delete; ~Obj(); uint32_t val() const; };
struct Base { uint32_t v; Base(uint32_t v) : v(v) {} };
struct alignas(64) Big { uint32_t pad[15]; uint32_t v; Big(uint32_t); ~Big(); };
struct Tr { uint32_t a; uint8_t b; };
std::shared_ptr<uint32_t> member(const std::shared_ptr<Obj> &p); std::shared_ptr<Obj> hollow(const std::shared_ptr<Obj> &p);
uint32_t bval(const Base &b); uint32_t bigval(const Big &b);
#define TY(T, n) std::shared_ptr<T> mk_##n(uint64_t v); size_t put_##n(std::shared_ptr<T> p); std::shared_ptr<T> take_##n(); size_t look_##n(const std::shared_ptr<T> &p); size_t count_##n(const std::shared_ptr<T> &p); std::shared_ptr<T> try_##n(std::shared_ptr<T> p, bool ok); void reset_##n(std::shared_ptr<T> &p); uint64_t val_##n(const std::shared_ptr<T> &p); size_t wput_##n(std::weak_ptr<T> p); std::weak_ptr<T> wtake_##n(); size_t wlook_##n(const std::weak_ptr<T> &p); size_t wcount_##n(const std::weak_ptr<T> &p); std::weak_ptr<T> wof_##n(const std::shared_ptr<T> &p); std::shared_ptr<T> lock_##n(std::weak_ptr<T> p);
TY(Obj, obj) TY(Base, base) TY(Big, big) TY(std::string, str) TY(Sh, sh) TY(Tr, tr) TY(En, en) TY(bool, bool) TY(uint8_t, u8) TY(uint16_t, u16) TY(uint32_t, u32) TY(uint64_t, u64) TY(size_t, usize) TY(int8_t, i8) TY(int16_t, i16) TY(int32_t, i32) TY(int64_t, i64) TY(rust::isize, isize) TY(float, f32) TY(double, f64) 
Hold swap_hold(Hold h);
