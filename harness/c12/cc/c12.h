#pragma once
#include "rust/cxx.h"
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
struct Sh; struct Hold;
int32_t alive();
struct Obj { uint32_t v; uint8_t *p; Obj(uint32_t); Obj(const Obj &); Obj(Obj &&o) noexcept; Obj &operator=(const Obj &) = delete; ~Obj(); uint32_t val() const; void set(uint32_t v); };
struct Base { uint32_t v; Base(uint32_t v) : v(v) {} virtual ~Base(); };
struct alignas(64) Big { uint32_t pad[15]; uint32_t v; Big(uint32_t); ~Big(); };
struct Tr { uint32_t a; uint8_t b; };
uint32_t bval(const Base &b); uint32_t bigval(const Big &b); uint32_t shval(const Sh &b); uint32_t trval(const Tr &b);
#define TY(T, n) std::unique_ptr<T> mk_##n(uint32_t v); size_t put_##n(std::unique_ptr<T> p); std::unique_ptr<T> take_##n(); size_t look_##n(const std::unique_ptr<T> &p); void eat_##n(std::unique_ptr<T> p); std::unique_ptr<T> try_##n(std::unique_ptr<T> p, bool ok); void reset_##n(std::unique_ptr<T> &p, uint32_t v);
TY(Obj, obj) TY(Base, base) TY(Big, big) TY(std::string, str) TY(Sh, sh) TY(Tr, tr) TY(std::vector<uint32_t>, vec) TY(std::vector<Obj>, vobj)
void del_obj(Obj *p); void del_base(Base *p); void del_big(Big *p); void del_str(std::string *p); void del_sh(Sh *p); void del_tr(Tr *p); void del_vec(size_t p); void del_vobj(size_t p);
Hold swap_hold(Hold h);
