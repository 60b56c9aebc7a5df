#include "lib.rs.h"
#include "sym.h"
#include "utf.h"
std::unique_ptr<std::string> make(Sl b) { return std::unique_ptr<std::string>(new std::string((const char *)b.data(), b.size())); }
bool same(const std::string &s, Sl b) { return s.size() == b.size() && eqn(s.data(), b.data(), b.size()) && s.c_str()[s.size()] == 0 && s.empty() == b.empty(); }
size_t at(const std::string &s) { return (size_t)s.data(); } size_t cap(const std::string &s) { return s.capacity(); }
void add(std::string &s, size_t n, uint8_t c) { s.append(n, (char)c); } void pop(std::string &s) { s.pop_back(); } void assign(std::string &s, const std::string &o) { s = o; } void swap(std::string &s, std::string &o) { s.swap(o); }
int32_t cxx_cmp(const std::string &s, const std::string &o) { return s.compare(o); }
bool ref_utf8_(Sl b) { return ref_utf8(b.data(), b.size()); } size_t ref_lossy_(Sl b, rust::Slice<uint8_t> out) { return ref_lossy(b.data(), b.size(), out.data()); }
