#pragma once
#include "lib.rs.h"
struct Q;
struct Caller { uint64_t f_method(rust::Fn<uint64_t(uint64_t, const C &)> f, uint64_t x, const C &c) const; };
std::unique_ptr<Caller> caller();
void f_none(rust::Fn<void()> f);
int16_t f_ints(rust::Fn<int16_t(uint8_t, int16_t, uint32_t, int64_t, bool, uint64_t, uint8_t, size_t)> f, uint8_t a, int16_t b, uint32_t c, int64_t d, bool e, uint64_t g, uint8_t h, size_t i);
double f_floats(float x, rust::Fn<double(float, double, float)> f, double y);
rust::String f_string(rust::Fn<rust::String(rust::String, rust::Str, const rust::String &)> f, rust::String a, rust::Str b, const rust::String &c);
Q3 f_pod(rust::Fn<Q3(P2, F2, Q3)> f, P2 a, F2 b, Q3 c);
N f_n(rust::Fn<N(N, N)> f, N a, N b);
rust::Box<Q> f_box(rust::Fn<rust::Box<Q>(rust::Box<Q>, const Q &)> f, rust::Box<Q> a, const Q &b);
std::unique_ptr<C> f_unique(rust::Fn<std::unique_ptr<C>(std::unique_ptr<C>, std::unique_ptr<C>)> f, std::unique_ptr<C> a, std::unique_ptr<C> b);
rust::Vec<rust::String> f_vec(rust::Fn<rust::Vec<rust::String>(rust::Vec<rust::String>, rust::Vec<uint8_t>)> f, rust::Vec<rust::String> a, rust::Vec<uint8_t> b);
void f_refs(rust::Fn<void(rust::Slice<const uint8_t>, rust::Vec<uint8_t> &, N &, C &, const std::string &, const C &)> f, rust::Slice<const uint8_t> a, rust::Vec<uint8_t> &b, N &c, C &d, const std::string &e, const C &g);
size_t f_slice(rust::Fn<size_t(rust::Slice<const P2>)> f, rust::Slice<const P2> a);
C *f_raw(rust::Fn<C *(const uint8_t *, C *)> f, const uint8_t *a, C *b);
uint64_t f_two(rust::Fn<uint64_t(uint64_t)> f, rust::Fn<uint64_t(uint64_t)> g, uint64_t x);
rust::String f_try(rust::Fn<rust::String(uint64_t, rust::String)> f, uint64_t x, rust::String s);
void keep(rust::Fn<uint64_t(uint64_t, uint32_t)> f);
uint64_t call_kept(uint64_t x, uint32_t y);
