#pragma once
#include <cstdint>
#include <type_traits>
#include "rust/cxx.h"
extern int tr_copies_left; // <0: never throw
struct Tr {
  using IsRelocatable = std::true_type;
  uint32_t *p;
  Tr(uint32_t v) : p(new uint32_t(v)) {}
  Tr(const Tr &o) : p(nullptr) { if (tr_copies_left == 0) throw 42; if (tr_copies_left > 0) tr_copies_left--; if (o.p) p = new uint32_t(*o.p); }
  Tr(Tr &&o) noexcept : p(o.p) { o.p = nullptr; }
  Tr &operator=(const Tr &o) { if (this != &o) { Tr t(o); uint32_t *q = p; p = t.p; t.p = q; } return *this; }
  Tr &operator=(Tr &&o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  ~Tr() { delete p; p = (uint32_t *)8; }
};
struct Op; struct S;
uint32_t cc_take(rust::Box<Op> b); rust::Box<Op> cc_pass(rust::Box<Op> b, uint32_t x); uint32_t cc_peek(const rust::Box<Op> &b);
rust::Box<S> cs_pass(rust::Box<S> b, uint32_t x); rust::Box<S> cs_new(uint32_t v); void cc_ref(rust::Box<Op> &b, uint32_t v);
