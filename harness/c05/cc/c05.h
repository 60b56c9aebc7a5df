#pragma once
#include "rust/cxx.h"
#include <memory>
#include <vector>
struct Probe; struct S3;
Probe c_probe(rust::Slice<const uint32_t> s); Probe c_probe8(rust::Slice<const uint8_t> s); Probe c_probe_mut(rust::Slice<uint64_t> s); Probe c_probe_s3(rust::Slice<const S3> s); Probe c_probe_str(rust::Slice<const rust::String> s);
void c_set(rust::Slice<uint32_t> s, size_t i, uint32_t x);
rust::Slice<const uint32_t> c_part(rust::Slice<const uint32_t> s, size_t a, size_t b); rust::Slice<uint32_t> c_part_mut(rust::Slice<uint32_t> s, size_t a, size_t b);
rust::Slice<const uint64_t> c_default(rust::Slice<const uint64_t> s); rust::Slice<const uint8_t> c_null(rust::Slice<const uint8_t> s);
rust::Slice<const uint32_t> c_vec(const std::vector<uint32_t> &v); std::unique_ptr<std::vector<uint32_t>> c_mk(size_t n, uint32_t x);
