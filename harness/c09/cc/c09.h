#pragma once
#include "rust/cxx.h"
#include <cstdint>
struct Tv { uint8_t v; bool operator==(const Tv &o) const { return v == o.v; } bool operator<(const Tv &o) const { return v < o.v; } };
namespace std { template <> struct hash<Tv> { size_t operator()(const Tv &t) const { return t.v; } }; }
uint32_t cxx_calls_rust(bool bad); uint32_t cxx_calls_rust_res(bool bad);
uint32_t call_cb(rust::Fn<uint32_t(bool, uint32_t)> f, bool bad, uint32_t v);
