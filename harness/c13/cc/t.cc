#include "lib.rs.h"
#include "sym.h"
#include <stdexcept>
#include <cstring>
static int count; int32_t alive() { return count; }
Obj::Obj(uint32_t v) : v(v), p(new uint8_t(1)) { count++; } Obj::~Obj() { delete p; count--; v = 0xdead; } uint32_t Obj::val() const { return v; }
struct Derived : Base { std::string more; Derived(uint32_t v) : Base(v), more("a string that lives on the heap") { count++; } ~Derived() { count--; } };
Big::Big(uint32_t v) : v(v) { count++; } Big::~Big() { count--; }
uint32_t bval(const Base &b) { return b.v; } uint32_t bigval(const Big &b) { sym_assert((size_t)&b % 64 == 0, "overaligned"); return b.v; }
std::shared_ptr<uint32_t> member(const std::shared_ptr<Obj> &p) { return p ? std::shared_ptr<uint32_t>(p, &p->v) : nullptr; }
std::shared_ptr<Obj> hollow(const std::shared_ptr<Obj> &p) { return p ? std::shared_ptr<Obj>(p, nullptr) : nullptr; }
template <class T> struct Mk { static std::shared_ptr<T> mk(uint64_t v) { T t = T(); memcpy(&t, &v, sizeof t); return std::make_shared<T>(t); } static uint64_t val(const T &t) { uint64_t v = 0; memcpy(&v, &t, sizeof t); return v; } };
template <> struct Mk<Obj> { static std::shared_ptr<Obj> mk(uint64_t v) { return std::make_shared<Obj>(v); } static uint64_t val(const Obj &t) { return t.v; } };
template <> struct Mk<Base> { static std::shared_ptr<Base> mk(uint64_t v) { return std::shared_ptr<Derived>(new Derived(v)); } static uint64_t val(const Base &t) { return t.v; } };
template <> struct Mk<Big> { static std::shared_ptr<Big> mk(uint64_t v) { return std::make_shared<Big>(v); } static uint64_t val(const Big &t) { return t.v; } };
template <> struct Mk<std::string> { static std::shared_ptr<std::string> mk(uint64_t v) { return std::make_shared<std::string>(std::string("sixteen bytes: -") + std::string((char *)&v, 4)); } static uint64_t val(const std::string &t) { uint32_t v; memcpy(&v, t.data() + 16, 4); return v; } };
template <> struct Mk<Sh> { static std::shared_ptr<Sh> mk(uint64_t v) { return std::shared_ptr<Sh>(new Sh{(uint32_t)v, "s"}); } static uint64_t val(const Sh &t) { return t.v; } };
template <> struct Mk<Tr> { static std::shared_ptr<Tr> mk(uint64_t v) { return std::shared_ptr<Tr>(new Tr{(uint32_t)v, 1}); } static uint64_t val(const Tr &t) { return t.a; } };
#define TYD(T, n) static std::shared_ptr<T> held_##n; static std::weak_ptr<T> wheld_##n; std::shared_ptr<T> mk_##n(uint64_t v) { return Mk<T>::mk(v); } size_t put_##n(std::shared_ptr<T> p) { held_##n = std::move(p); return (size_t)held_##n.get(); } std::shared_ptr<T> take_##n() { return std::move(held_##n); } size_t look_##n(const std::shared_ptr<T> &p) { return (size_t)p.get(); } size_t count_##n(const std::shared_ptr<T> &p) { return p.use_count(); } std::shared_ptr<T> try_##n(std::shared_ptr<T> p, bool ok) { if (!ok) throw std::runtime_error("no"); return p; } void reset_##n(std::shared_ptr<T> &p) { p.reset(); } uint64_t val_##n(const std::shared_ptr<T> &p) { return Mk<T>::val(*p); } size_t wput_##n(std::weak_ptr<T> p) { wheld_##n = std::move(p); return (size_t)wheld_##n.lock().get(); } std::weak_ptr<T> wtake_##n() { return std::move(wheld_##n); } size_t wlook_##n(const std::weak_ptr<T> &p) { return (size_t)p.lock().get(); } size_t wcount_##n(const std::weak_ptr<T> &p) { return p.use_count(); } std::weak_ptr<T> wof_##n(const std::shared_ptr<T> &p) { return p; } std::shared_ptr<T> lock_##n(std::weak_ptr<T> p) { return p.lock(); }
TYD(Obj, obj)
TYD(Base, base)
TYD(Big, big)
TYD(std::string, str)
TYD(Sh, sh)
TYD(Tr, tr)
TYD(En, en)
TYD(bool, bool)
TYD(uint8_t, u8)
TYD(uint16_t, u16)
TYD(uint32_t, u32)
TYD(uint64_t, u64)
TYD(size_t, usize)
TYD(int8_t, i8)
TYD(int16_t, i16)
TYD(int32_t, i32)
TYD(int64_t, i64)
TYD(rust::isize, isize)
TYD(float, f32)
TYD(double, f64)
Hold swap_hold(Hold h) { std::swap(h.p, h.q); return h; }
