#include "lib.rs.h"
#include "sym.h"
#include <stdexcept>
static int count; int32_t alive() { return count; }
Obj::Obj(uint32_t v) : v(v), p(new uint8_t(1)) { count++; } Obj::Obj(const Obj &o) : v(o.v), p(new uint8_t(1)) { count++; } Obj::Obj(Obj &&o) noexcept : v(o.v), p(o.p) { o.p = nullptr; count++; } Obj::~Obj() { delete p; count--; v = 0xdead; } uint32_t Obj::val() const { return v; } void Obj::set(uint32_t x) { v = x; }
Base::~Base() {}
struct Derived : Base { std::string more; Derived(uint32_t v) : Base(v), more("a string that lives on the heap") { count++; } ~Derived() override { count--; } };
Big::Big(uint32_t v) : v(v) { count++; } Big::~Big() { count--; }
uint32_t bval(const Base &b) { return b.v; } uint32_t bigval(const Big &b) { sym_assert((size_t)&b % 64 == 0, "overaligned"); return b.v; } uint32_t shval(const Sh &b) { return b.v; } uint32_t trval(const Tr &b) { return b.a; }
typedef std::vector<uint32_t> V; typedef std::vector<Obj> VO;
static Obj *make(uint32_t v, Obj *) { return new Obj(v); } static Base *make(uint32_t v, Base *) { return new Derived(v); } static Big *make(uint32_t v, Big *) { return new Big(v); } static std::string *make(uint32_t v, std::string *) { return new std::string(std::string("sixteen bytes: -") + std::string((char *)&v, 4)); }
static Sh *make(uint32_t v, Sh *) { return new Sh{v, "s"}; } static Tr *make(uint32_t v, Tr *) { return new Tr{v, 1}; } static V *make(uint32_t v, V *) { return new V(2, v); } static VO *make(uint32_t v, VO *) { auto r = new VO; r->emplace_back(7); r->emplace_back(v); return r; }
#define TYD(T, n) static std::unique_ptr<T> held_##n; std::unique_ptr<T> mk_##n(uint32_t v) { return std::unique_ptr<T>(make(v, (T *)nullptr)); } size_t put_##n(std::unique_ptr<T> p) { held_##n = std::move(p); return (size_t)held_##n.get(); } std::unique_ptr<T> take_##n() { return std::move(held_##n); } size_t look_##n(const std::unique_ptr<T> &p) { return (size_t)p.get(); } void eat_##n(std::unique_ptr<T> p) { p.reset(); } std::unique_ptr<T> try_##n(std::unique_ptr<T> p, bool ok) { if (!ok) throw std::runtime_error("no"); return p; } void reset_##n(std::unique_ptr<T> &p, uint32_t v) { p.reset(make(v, (T *)nullptr)); }
TYD(Obj, obj) TYD(Base, base) TYD(Big, big) TYD(std::string, str) TYD(Sh, sh) TYD(Tr, tr) TYD(V, vec) TYD(VO, vobj)
void del_obj(Obj *p) { delete p; } void del_base(Base *p) { delete p; } void del_big(Big *p) { delete p; } void del_str(std::string *p) { delete p; } void del_sh(Sh *p) { delete p; } void del_tr(Tr *p) { delete p; } void del_vec(size_t p) { delete (V *)p; } void del_vobj(size_t p) { delete (VO *)p; }
Hold swap_hold(Hold h) { std::swap(h.p, h.q); return h; }
