// std::hash is used from a second translation unit, which sees only the generated header.
#include "lib.rs.h"
#include "t.h"
template <class T> static size_t h(const T &t) { return std::hash<T>()(t); }
size_t hash_full(const Full &a) { return h(a); } size_t hash_text(const Text &a) { return h(a); } size_t hash_nestf(const NestF &a) { return h(a); } size_t hash_own(const Own &a) { return h(a); } size_t hash_eqonly(const EqOnly &a) { return h(a); } size_t hash_refs(const Refs &a) { return h(a); } size_t hash_inns(const deep::er::Renamed &a) { return h(a); }
std::unique_ptr<std::string> mk_string(rust::Slice<const uint8_t> v) { return std::unique_ptr<std::string>(new std::string((const char *)v.data(), v.size())); }
