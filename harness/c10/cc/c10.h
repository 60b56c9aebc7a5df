#pragma once
#include "rust/cxx.h"
#include <cstdint>
#include <memory>
#include <string>
typedef rust::Slice<const uint8_t> Sl;
std::unique_ptr<std::string> make(Sl b); bool same(const std::string &s, Sl b); size_t at(const std::string &s); size_t cap(const std::string &s);
void add(std::string &s, size_t n, uint8_t c); void pop(std::string &s); void assign(std::string &s, const std::string &o); void swap(std::string &s, std::string &o);
int32_t cxx_cmp(const std::string &s, const std::string &o); bool ref_utf8_(Sl b); size_t ref_lossy_(Sl b, rust::Slice<uint8_t> out);
