#pragma once
#include "rust/cxx.h"
#include <functional>
#include <memory>
#include <string>
template <class T> uint8_t eq_ops(const T &a, const T &b) { return (a == b) | (a != b) << 1; }
template <class T> uint8_t ord_ops(const T &a, const T &b) { return (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; }
template <class T> uint8_t all_ops(const T &a, const T &b) { return eq_ops(a, b) | ord_ops(a, b); }
struct Full; struct Text; struct NestF; struct Own; struct EqOnly; struct Refs; namespace deep { namespace er { struct Renamed; } }
size_t hash_full(const Full &); size_t hash_text(const Text &); size_t hash_nestf(const NestF &); size_t hash_own(const Own &); size_t hash_eqonly(const EqOnly &); size_t hash_refs(const Refs &); size_t hash_inns(const deep::er::Renamed &);
std::unique_ptr<std::string> mk_string(rust::Slice<const uint8_t> v);
