#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
struct P1; struct P2; struct F2; struct FI; struct Q2; struct Q3; struct D4; struct N; struct Ar; struct Nest; struct R; enum class En : uint8_t; enum class Ei16 : int16_t; enum class Eu64 : uint64_t;
struct T1 { uint32_t a; uint8_t b; };
struct T3 { uint64_t a, b, c; };
struct Tx { using IsRelocatable = std::true_type; uint64_t *p; Tx(uint64_t v); Tx(const Tx &o); Tx(Tx &&o) noexcept; Tx &operator=(Tx o) noexcept; ~Tx(); };
class C { public: uint64_t v; uint64_t *heap; C(uint64_t v); C(const C &) = delete; ~C();
  METHODS_C
};
std::unique_ptr<C> mk_c(uint64_t v); std::shared_ptr<C> mk_sc(uint64_t v); std::weak_ptr<C> mk_wc(uint64_t v); std::shared_ptr<uint64_t> mk_su64(uint64_t v);
std::unique_ptr<std::string> mk_cs(uint64_t v, size_t k); std::unique_ptr<std::vector<uint32_t>> mk_cv(uint64_t v, size_t k); std::unique_ptr<std::vector<N>> mk_cvn(uint64_t v, size_t k);
uint64_t c_get(const C &c); void c_set(C &c, uint64_t v);
