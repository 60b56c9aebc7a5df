#pragma once
#include "rust/cxx.h"
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
template <typename T> using Sl = rust::Slice<const T>;
struct Sh;
struct Obj { uint32_t v; uint8_t *p; Obj(uint32_t); Obj(const Obj &); Obj(Obj &&) noexcept; Obj &operator=(const Obj &); ~Obj(); uint32_t val() const; void set(uint32_t v); };
struct Tr { uint32_t a; uint8_t b; };
int32_t alive();
#define FAT(T, n) std::unique_ptr<std::vector<T>> mk_##n(Sl<uint32_t> v); bool is_##n(const std::vector<T> &v, Sl<uint32_t> w); void add_##n(std::vector<T> &v, uint32_t x); void rem_##n(std::vector<T> &v);
FAT(Obj, obj) FAT(std::string, str) FAT(Sh, sh) FAT(Tr, tr)
#define PRIM(T, n) std::unique_ptr<std::vector<T>> mk_##n(Sl<T> v); bool is_##n(const std::vector<T> &v, Sl<T> w); void add_##n(std::vector<T> &v, T x); void rem_##n(std::vector<T> &v);
PRIM(uint8_t, u8) PRIM(uint16_t, u16) PRIM(uint32_t, u32) PRIM(uint64_t, u64) PRIM(size_t, usize) PRIM(int8_t, i8) PRIM(int16_t, i16) PRIM(int32_t, i32) PRIM(int64_t, i64) PRIM(rust::isize, isize) PRIM(float, f32) PRIM(double, f64)
