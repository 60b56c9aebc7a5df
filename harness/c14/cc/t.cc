#include "lib.rs.h"
#include "calls.h"
bool v_bool(bool a0) { log_(a0); return Val<bool>::mk(next.v, next.k); }
bool w_bool(uint8_t a0, bool a1, bool a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<bool>::mk(next.v, next.k); }
bool t_bool(bool a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<bool>::mk(next.v, next.k); }
char v_c_char(char a0) { log_(a0); return Val<char>::mk(next.v, next.k); }
char w_c_char(uint8_t a0, char a1, char a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<char>::mk(next.v, next.k); }
char t_c_char(char a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<char>::mk(next.v, next.k); }
uint8_t v_u8(uint8_t a0) { log_(a0); return Val<uint8_t>::mk(next.v, next.k); }
uint8_t w_u8(uint8_t a0, uint8_t a1, uint8_t a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<uint8_t>::mk(next.v, next.k); }
uint8_t t_u8(uint8_t a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<uint8_t>::mk(next.v, next.k); }
uint16_t v_u16(uint16_t a0) { log_(a0); return Val<uint16_t>::mk(next.v, next.k); }
uint16_t w_u16(uint8_t a0, uint16_t a1, uint16_t a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<uint16_t>::mk(next.v, next.k); }
uint16_t t_u16(uint16_t a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<uint16_t>::mk(next.v, next.k); }
uint32_t v_u32(uint32_t a0) { log_(a0); return Val<uint32_t>::mk(next.v, next.k); }
uint32_t w_u32(uint8_t a0, uint32_t a1, uint32_t a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<uint32_t>::mk(next.v, next.k); }
uint32_t t_u32(uint32_t a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<uint32_t>::mk(next.v, next.k); }
uint64_t v_u64(uint64_t a0) { log_(a0); return Val<uint64_t>::mk(next.v, next.k); }
uint64_t w_u64(uint8_t a0, uint64_t a1, uint64_t a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<uint64_t>::mk(next.v, next.k); }
uint64_t t_u64(uint64_t a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<uint64_t>::mk(next.v, next.k); }
size_t v_usize(size_t a0) { log_(a0); return Val<size_t>::mk(next.v, next.k); }
size_t w_usize(uint8_t a0, size_t a1, size_t a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<size_t>::mk(next.v, next.k); }
size_t t_usize(size_t a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<size_t>::mk(next.v, next.k); }
int8_t v_i8(int8_t a0) { log_(a0); return Val<int8_t>::mk(next.v, next.k); }
int8_t w_i8(uint8_t a0, int8_t a1, int8_t a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<int8_t>::mk(next.v, next.k); }
int8_t t_i8(int8_t a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<int8_t>::mk(next.v, next.k); }
int16_t v_i16(int16_t a0) { log_(a0); return Val<int16_t>::mk(next.v, next.k); }
int16_t w_i16(uint8_t a0, int16_t a1, int16_t a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<int16_t>::mk(next.v, next.k); }
int16_t t_i16(int16_t a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<int16_t>::mk(next.v, next.k); }
int32_t v_i32(int32_t a0) { log_(a0); return Val<int32_t>::mk(next.v, next.k); }
int32_t w_i32(uint8_t a0, int32_t a1, int32_t a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<int32_t>::mk(next.v, next.k); }
int32_t t_i32(int32_t a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<int32_t>::mk(next.v, next.k); }
int64_t v_i64(int64_t a0) { log_(a0); return Val<int64_t>::mk(next.v, next.k); }
int64_t w_i64(uint8_t a0, int64_t a1, int64_t a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<int64_t>::mk(next.v, next.k); }
int64_t t_i64(int64_t a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<int64_t>::mk(next.v, next.k); }
rust::isize v_isize(rust::isize a0) { log_(a0); return Val<rust::isize>::mk(next.v, next.k); }
rust::isize w_isize(uint8_t a0, rust::isize a1, rust::isize a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<rust::isize>::mk(next.v, next.k); }
rust::isize t_isize(rust::isize a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<rust::isize>::mk(next.v, next.k); }
float v_f32(float a0) { log_(a0); return Val<float>::mk(next.v, next.k); }
float w_f32(uint8_t a0, float a1, float a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<float>::mk(next.v, next.k); }
float t_f32(float a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<float>::mk(next.v, next.k); }
double v_f64(double a0) { log_(a0); return Val<double>::mk(next.v, next.k); }
double w_f64(uint8_t a0, double a1, double a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<double>::mk(next.v, next.k); }
double t_f64(double a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<double>::mk(next.v, next.k); }
rust::String v_string(rust::String a0) { log_(a0); return Val<rust::String>::mk(next.v, next.k); }
rust::String w_string(uint8_t a0, rust::String a1, rust::String a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<rust::String>::mk(next.v, next.k); }
rust::String t_string(rust::String a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<rust::String>::mk(next.v, next.k); }
rust::Box<R> v_box(rust::Box<R> a0) { log_(a0); return Val<rust::Box<R>>::mk(next.v, next.k); }
rust::Box<R> w_box(uint8_t a0, rust::Box<R> a1, rust::Box<R> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<rust::Box<R>>::mk(next.v, next.k); }
rust::Box<R> t_box(rust::Box<R> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<rust::Box<R>>::mk(next.v, next.k); }
rust::Box<N> v_boxn(rust::Box<N> a0) { log_(a0); return Val<rust::Box<N>>::mk(next.v, next.k); }
rust::Box<N> w_boxn(uint8_t a0, rust::Box<N> a1, rust::Box<N> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<rust::Box<N>>::mk(next.v, next.k); }
rust::Box<N> t_boxn(rust::Box<N> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<rust::Box<N>>::mk(next.v, next.k); }
rust::Vec<uint8_t> v_vu8(rust::Vec<uint8_t> a0) { log_(a0); return Val<rust::Vec<uint8_t>>::mk(next.v, next.k); }
rust::Vec<uint8_t> w_vu8(uint8_t a0, rust::Vec<uint8_t> a1, rust::Vec<uint8_t> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<rust::Vec<uint8_t>>::mk(next.v, next.k); }
rust::Vec<uint8_t> t_vu8(rust::Vec<uint8_t> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<rust::Vec<uint8_t>>::mk(next.v, next.k); }
rust::Vec<bool> v_vbool(rust::Vec<bool> a0) { log_(a0); return Val<rust::Vec<bool>>::mk(next.v, next.k); }
rust::Vec<bool> w_vbool(uint8_t a0, rust::Vec<bool> a1, rust::Vec<bool> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<rust::Vec<bool>>::mk(next.v, next.k); }
rust::Vec<bool> t_vbool(rust::Vec<bool> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<rust::Vec<bool>>::mk(next.v, next.k); }
rust::Vec<double> v_vf64(rust::Vec<double> a0) { log_(a0); return Val<rust::Vec<double>>::mk(next.v, next.k); }
rust::Vec<double> w_vf64(uint8_t a0, rust::Vec<double> a1, rust::Vec<double> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<rust::Vec<double>>::mk(next.v, next.k); }
rust::Vec<double> t_vf64(rust::Vec<double> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<rust::Vec<double>>::mk(next.v, next.k); }
rust::Vec<rust::String> v_vstring(rust::Vec<rust::String> a0) { log_(a0); return Val<rust::Vec<rust::String>>::mk(next.v, next.k); }
rust::Vec<rust::String> w_vstring(uint8_t a0, rust::Vec<rust::String> a1, rust::Vec<rust::String> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<rust::Vec<rust::String>>::mk(next.v, next.k); }
rust::Vec<rust::String> t_vstring(rust::Vec<rust::String> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<rust::Vec<rust::String>>::mk(next.v, next.k); }
rust::Vec<P2> v_vp2(rust::Vec<P2> a0) { log_(a0); return Val<rust::Vec<P2>>::mk(next.v, next.k); }
rust::Vec<P2> w_vp2(uint8_t a0, rust::Vec<P2> a1, rust::Vec<P2> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<rust::Vec<P2>>::mk(next.v, next.k); }
rust::Vec<P2> t_vp2(rust::Vec<P2> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<rust::Vec<P2>>::mk(next.v, next.k); }
rust::Vec<N> v_vn(rust::Vec<N> a0) { log_(a0); return Val<rust::Vec<N>>::mk(next.v, next.k); }
rust::Vec<N> w_vn(uint8_t a0, rust::Vec<N> a1, rust::Vec<N> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<rust::Vec<N>>::mk(next.v, next.k); }
rust::Vec<N> t_vn(rust::Vec<N> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<rust::Vec<N>>::mk(next.v, next.k); }
rust::Vec<R> v_vr(rust::Vec<R> a0) { log_(a0); return Val<rust::Vec<R>>::mk(next.v, next.k); }
rust::Vec<R> w_vr(uint8_t a0, rust::Vec<R> a1, rust::Vec<R> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<rust::Vec<R>>::mk(next.v, next.k); }
rust::Vec<R> t_vr(rust::Vec<R> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<rust::Vec<R>>::mk(next.v, next.k); }
std::unique_ptr<C> v_uobj(std::unique_ptr<C> a0) { log_(a0); return Val<std::unique_ptr<C>>::mk(next.v, next.k); }
std::unique_ptr<C> w_uobj(uint8_t a0, std::unique_ptr<C> a1, std::unique_ptr<C> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<std::unique_ptr<C>>::mk(next.v, next.k); }
std::unique_ptr<C> t_uobj(std::unique_ptr<C> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<std::unique_ptr<C>>::mk(next.v, next.k); }
std::unique_ptr<std::string> v_ustr(std::unique_ptr<std::string> a0) { log_(a0); return Val<std::unique_ptr<std::string>>::mk(next.v, next.k); }
std::unique_ptr<std::string> w_ustr(uint8_t a0, std::unique_ptr<std::string> a1, std::unique_ptr<std::string> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<std::unique_ptr<std::string>>::mk(next.v, next.k); }
std::unique_ptr<std::string> t_ustr(std::unique_ptr<std::string> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<std::unique_ptr<std::string>>::mk(next.v, next.k); }
std::unique_ptr<std::vector<uint32_t>> v_uvec(std::unique_ptr<std::vector<uint32_t>> a0) { log_(a0); return Val<std::unique_ptr<std::vector<uint32_t>>>::mk(next.v, next.k); }
std::unique_ptr<std::vector<uint32_t>> w_uvec(uint8_t a0, std::unique_ptr<std::vector<uint32_t>> a1, std::unique_ptr<std::vector<uint32_t>> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<std::unique_ptr<std::vector<uint32_t>>>::mk(next.v, next.k); }
std::unique_ptr<std::vector<uint32_t>> t_uvec(std::unique_ptr<std::vector<uint32_t>> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<std::unique_ptr<std::vector<uint32_t>>>::mk(next.v, next.k); }
std::unique_ptr<N> v_un(std::unique_ptr<N> a0) { log_(a0); return Val<std::unique_ptr<N>>::mk(next.v, next.k); }
std::unique_ptr<N> w_un(uint8_t a0, std::unique_ptr<N> a1, std::unique_ptr<N> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<std::unique_ptr<N>>::mk(next.v, next.k); }
std::unique_ptr<N> t_un(std::unique_ptr<N> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<std::unique_ptr<N>>::mk(next.v, next.k); }
std::shared_ptr<C> v_sobj(std::shared_ptr<C> a0) { log_(a0); return Val<std::shared_ptr<C>>::mk(next.v, next.k); }
std::shared_ptr<C> w_sobj(uint8_t a0, std::shared_ptr<C> a1, std::shared_ptr<C> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<std::shared_ptr<C>>::mk(next.v, next.k); }
std::shared_ptr<C> t_sobj(std::shared_ptr<C> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<std::shared_ptr<C>>::mk(next.v, next.k); }
std::shared_ptr<uint64_t> v_su64(std::shared_ptr<uint64_t> a0) { log_(a0); return Val<std::shared_ptr<uint64_t>>::mk(next.v, next.k); }
std::shared_ptr<uint64_t> w_su64(uint8_t a0, std::shared_ptr<uint64_t> a1, std::shared_ptr<uint64_t> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<std::shared_ptr<uint64_t>>::mk(next.v, next.k); }
std::shared_ptr<uint64_t> t_su64(std::shared_ptr<uint64_t> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<std::shared_ptr<uint64_t>>::mk(next.v, next.k); }
std::weak_ptr<C> v_wobj(std::weak_ptr<C> a0) { log_(a0); return Val<std::weak_ptr<C>>::mk(next.v, next.k); }
std::weak_ptr<C> w_wobj(uint8_t a0, std::weak_ptr<C> a1, std::weak_ptr<C> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<std::weak_ptr<C>>::mk(next.v, next.k); }
std::weak_ptr<C> t_wobj(std::weak_ptr<C> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<std::weak_ptr<C>>::mk(next.v, next.k); }
P1 v_p1(P1 a0) { log_(a0); return Val<P1>::mk(next.v, next.k); }
P1 w_p1(uint8_t a0, P1 a1, P1 a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<P1>::mk(next.v, next.k); }
P1 t_p1(P1 a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<P1>::mk(next.v, next.k); }
P2 v_p2(P2 a0) { log_(a0); return Val<P2>::mk(next.v, next.k); }
P2 w_p2(uint8_t a0, P2 a1, P2 a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<P2>::mk(next.v, next.k); }
P2 t_p2(P2 a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<P2>::mk(next.v, next.k); }
F2 v_f2(F2 a0) { log_(a0); return Val<F2>::mk(next.v, next.k); }
F2 w_f2(uint8_t a0, F2 a1, F2 a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<F2>::mk(next.v, next.k); }
F2 t_f2(F2 a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<F2>::mk(next.v, next.k); }
FI v_fi(FI a0) { log_(a0); return Val<FI>::mk(next.v, next.k); }
FI w_fi(uint8_t a0, FI a1, FI a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<FI>::mk(next.v, next.k); }
FI t_fi(FI a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<FI>::mk(next.v, next.k); }
Q2 v_q2(Q2 a0) { log_(a0); return Val<Q2>::mk(next.v, next.k); }
Q2 w_q2(uint8_t a0, Q2 a1, Q2 a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<Q2>::mk(next.v, next.k); }
Q2 t_q2(Q2 a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<Q2>::mk(next.v, next.k); }
Q3 v_q3(Q3 a0) { log_(a0); return Val<Q3>::mk(next.v, next.k); }
Q3 w_q3(uint8_t a0, Q3 a1, Q3 a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<Q3>::mk(next.v, next.k); }
Q3 t_q3(Q3 a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<Q3>::mk(next.v, next.k); }
D4 v_d4(D4 a0) { log_(a0); return Val<D4>::mk(next.v, next.k); }
D4 w_d4(uint8_t a0, D4 a1, D4 a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<D4>::mk(next.v, next.k); }
D4 t_d4(D4 a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<D4>::mk(next.v, next.k); }
N v_n(N a0) { log_(a0); return Val<N>::mk(next.v, next.k); }
N w_n(uint8_t a0, N a1, N a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<N>::mk(next.v, next.k); }
N t_n(N a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<N>::mk(next.v, next.k); }
Ar v_ar(Ar a0) { log_(a0); return Val<Ar>::mk(next.v, next.k); }
Ar w_ar(uint8_t a0, Ar a1, Ar a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<Ar>::mk(next.v, next.k); }
Ar t_ar(Ar a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<Ar>::mk(next.v, next.k); }
Nest v_nest(Nest a0) { log_(a0); return Val<Nest>::mk(next.v, next.k); }
Nest w_nest(uint8_t a0, Nest a1, Nest a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<Nest>::mk(next.v, next.k); }
Nest t_nest(Nest a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<Nest>::mk(next.v, next.k); }
En v_en(En a0) { log_(a0); return Val<En>::mk(next.v, next.k); }
En w_en(uint8_t a0, En a1, En a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<En>::mk(next.v, next.k); }
En t_en(En a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<En>::mk(next.v, next.k); }
Ei16 v_ei16(Ei16 a0) { log_(a0); return Val<Ei16>::mk(next.v, next.k); }
Ei16 w_ei16(uint8_t a0, Ei16 a1, Ei16 a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<Ei16>::mk(next.v, next.k); }
Ei16 t_ei16(Ei16 a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<Ei16>::mk(next.v, next.k); }
Eu64 v_eu64(Eu64 a0) { log_(a0); return Val<Eu64>::mk(next.v, next.k); }
Eu64 w_eu64(uint8_t a0, Eu64 a1, Eu64 a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<Eu64>::mk(next.v, next.k); }
Eu64 t_eu64(Eu64 a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<Eu64>::mk(next.v, next.k); }
T1 v_t1(T1 a0) { log_(a0); return Val<T1>::mk(next.v, next.k); }
T1 w_t1(uint8_t a0, T1 a1, T1 a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<T1>::mk(next.v, next.k); }
T1 t_t1(T1 a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<T1>::mk(next.v, next.k); }
T3 v_t3(T3 a0) { log_(a0); return Val<T3>::mk(next.v, next.k); }
T3 w_t3(uint8_t a0, T3 a1, T3 a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<T3>::mk(next.v, next.k); }
T3 t_t3(T3 a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<T3>::mk(next.v, next.k); }
Tx v_tx(Tx a0) { log_(a0); return Val<Tx>::mk(next.v, next.k); }
Tx w_tx(uint8_t a0, Tx a1, Tx a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<Tx>::mk(next.v, next.k); }
Tx t_tx(Tx a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<Tx>::mk(next.v, next.k); }
std::array<uint8_t, 5> v_arr5(std::array<uint8_t, 5> a0) { log_(a0); return Val<std::array<uint8_t, 5>>::mk(next.v, next.k); }
std::array<uint8_t, 5> w_arr5(uint8_t a0, std::array<uint8_t, 5> a1, std::array<uint8_t, 5> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<std::array<uint8_t, 5>>::mk(next.v, next.k); }
std::array<uint8_t, 5> t_arr5(std::array<uint8_t, 5> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<std::array<uint8_t, 5>>::mk(next.v, next.k); }
std::array<rust::String, 2> v_arrs(std::array<rust::String, 2> a0) { log_(a0); return Val<std::array<rust::String, 2>>::mk(next.v, next.k); }
std::array<rust::String, 2> w_arrs(uint8_t a0, std::array<rust::String, 2> a1, std::array<rust::String, 2> a2, uint64_t a3) { log_(a0); log_(a1); log_(a2); log_(a3); return Val<std::array<rust::String, 2>>::mk(next.v, next.k); }
std::array<rust::String, 2> t_arrs(std::array<rust::String, 2> a0, uint16_t a1) { log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<std::array<rust::String, 2>>::mk(next.v, next.k); }
void r_bool(const bool & a0, const bool & a1) { logr(a0); logr(a1); }
void m_bool(bool & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const bool & rr_bool(const bool & a0) { logr(a0); return a0; }
bool & mm_bool(bool & a0) { logr(a0); set(a0); return a0; }
const bool & tr_bool(const bool & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
bool & tm_bool(bool & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_c_char(const char & a0, const char & a1) { logr(a0); logr(a1); }
void m_c_char(char & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const char & rr_c_char(const char & a0) { logr(a0); return a0; }
char & mm_c_char(char & a0) { logr(a0); set(a0); return a0; }
const char & tr_c_char(const char & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
char & tm_c_char(char & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_u8(const uint8_t & a0, const uint8_t & a1) { logr(a0); logr(a1); }
void m_u8(uint8_t & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const uint8_t & rr_u8(const uint8_t & a0) { logr(a0); return a0; }
uint8_t & mm_u8(uint8_t & a0) { logr(a0); set(a0); return a0; }
const uint8_t & tr_u8(const uint8_t & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
uint8_t & tm_u8(uint8_t & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_u16(const uint16_t & a0, const uint16_t & a1) { logr(a0); logr(a1); }
void m_u16(uint16_t & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const uint16_t & rr_u16(const uint16_t & a0) { logr(a0); return a0; }
uint16_t & mm_u16(uint16_t & a0) { logr(a0); set(a0); return a0; }
const uint16_t & tr_u16(const uint16_t & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
uint16_t & tm_u16(uint16_t & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_u32(const uint32_t & a0, const uint32_t & a1) { logr(a0); logr(a1); }
void m_u32(uint32_t & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const uint32_t & rr_u32(const uint32_t & a0) { logr(a0); return a0; }
uint32_t & mm_u32(uint32_t & a0) { logr(a0); set(a0); return a0; }
const uint32_t & tr_u32(const uint32_t & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
uint32_t & tm_u32(uint32_t & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_u64(const uint64_t & a0, const uint64_t & a1) { logr(a0); logr(a1); }
void m_u64(uint64_t & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const uint64_t & rr_u64(const uint64_t & a0) { logr(a0); return a0; }
uint64_t & mm_u64(uint64_t & a0) { logr(a0); set(a0); return a0; }
const uint64_t & tr_u64(const uint64_t & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
uint64_t & tm_u64(uint64_t & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_usize(const size_t & a0, const size_t & a1) { logr(a0); logr(a1); }
void m_usize(size_t & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const size_t & rr_usize(const size_t & a0) { logr(a0); return a0; }
size_t & mm_usize(size_t & a0) { logr(a0); set(a0); return a0; }
const size_t & tr_usize(const size_t & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
size_t & tm_usize(size_t & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_i8(const int8_t & a0, const int8_t & a1) { logr(a0); logr(a1); }
void m_i8(int8_t & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const int8_t & rr_i8(const int8_t & a0) { logr(a0); return a0; }
int8_t & mm_i8(int8_t & a0) { logr(a0); set(a0); return a0; }
const int8_t & tr_i8(const int8_t & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
int8_t & tm_i8(int8_t & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_i16(const int16_t & a0, const int16_t & a1) { logr(a0); logr(a1); }
void m_i16(int16_t & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const int16_t & rr_i16(const int16_t & a0) { logr(a0); return a0; }
int16_t & mm_i16(int16_t & a0) { logr(a0); set(a0); return a0; }
const int16_t & tr_i16(const int16_t & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
int16_t & tm_i16(int16_t & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_i32(const int32_t & a0, const int32_t & a1) { logr(a0); logr(a1); }
void m_i32(int32_t & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const int32_t & rr_i32(const int32_t & a0) { logr(a0); return a0; }
int32_t & mm_i32(int32_t & a0) { logr(a0); set(a0); return a0; }
const int32_t & tr_i32(const int32_t & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
int32_t & tm_i32(int32_t & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_i64(const int64_t & a0, const int64_t & a1) { logr(a0); logr(a1); }
void m_i64(int64_t & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const int64_t & rr_i64(const int64_t & a0) { logr(a0); return a0; }
int64_t & mm_i64(int64_t & a0) { logr(a0); set(a0); return a0; }
const int64_t & tr_i64(const int64_t & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
int64_t & tm_i64(int64_t & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_isize(const rust::isize & a0, const rust::isize & a1) { logr(a0); logr(a1); }
void m_isize(rust::isize & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const rust::isize & rr_isize(const rust::isize & a0) { logr(a0); return a0; }
rust::isize & mm_isize(rust::isize & a0) { logr(a0); set(a0); return a0; }
const rust::isize & tr_isize(const rust::isize & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::isize & tm_isize(rust::isize & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_f32(const float & a0, const float & a1) { logr(a0); logr(a1); }
void m_f32(float & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const float & rr_f32(const float & a0) { logr(a0); return a0; }
float & mm_f32(float & a0) { logr(a0); set(a0); return a0; }
const float & tr_f32(const float & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
float & tm_f32(float & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_f64(const double & a0, const double & a1) { logr(a0); logr(a1); }
void m_f64(double & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const double & rr_f64(const double & a0) { logr(a0); return a0; }
double & mm_f64(double & a0) { logr(a0); set(a0); return a0; }
const double & tr_f64(const double & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
double & tm_f64(double & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_string(const rust::String & a0, const rust::String & a1) { logr(a0); logr(a1); }
void m_string(rust::String & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const rust::String & rr_string(const rust::String & a0) { logr(a0); return a0; }
rust::String & mm_string(rust::String & a0) { logr(a0); set(a0); return a0; }
const rust::String & tr_string(const rust::String & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::String & tm_string(rust::String & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_box(const rust::Box<R> & a0, const rust::Box<R> & a1) { logr(a0); logr(a1); }
void m_box(rust::Box<R> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const rust::Box<R> & rr_box(const rust::Box<R> & a0) { logr(a0); return a0; }
rust::Box<R> & mm_box(rust::Box<R> & a0) { logr(a0); set(a0); return a0; }
const rust::Box<R> & tr_box(const rust::Box<R> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::Box<R> & tm_box(rust::Box<R> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_boxn(const rust::Box<N> & a0, const rust::Box<N> & a1) { logr(a0); logr(a1); }
void m_boxn(rust::Box<N> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const rust::Box<N> & rr_boxn(const rust::Box<N> & a0) { logr(a0); return a0; }
rust::Box<N> & mm_boxn(rust::Box<N> & a0) { logr(a0); set(a0); return a0; }
const rust::Box<N> & tr_boxn(const rust::Box<N> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::Box<N> & tm_boxn(rust::Box<N> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_vu8(const rust::Vec<uint8_t> & a0, const rust::Vec<uint8_t> & a1) { logr(a0); logr(a1); }
void m_vu8(rust::Vec<uint8_t> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const rust::Vec<uint8_t> & rr_vu8(const rust::Vec<uint8_t> & a0) { logr(a0); return a0; }
rust::Vec<uint8_t> & mm_vu8(rust::Vec<uint8_t> & a0) { logr(a0); set(a0); return a0; }
const rust::Vec<uint8_t> & tr_vu8(const rust::Vec<uint8_t> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::Vec<uint8_t> & tm_vu8(rust::Vec<uint8_t> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_vbool(const rust::Vec<bool> & a0, const rust::Vec<bool> & a1) { logr(a0); logr(a1); }
void m_vbool(rust::Vec<bool> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const rust::Vec<bool> & rr_vbool(const rust::Vec<bool> & a0) { logr(a0); return a0; }
rust::Vec<bool> & mm_vbool(rust::Vec<bool> & a0) { logr(a0); set(a0); return a0; }
const rust::Vec<bool> & tr_vbool(const rust::Vec<bool> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::Vec<bool> & tm_vbool(rust::Vec<bool> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_vf64(const rust::Vec<double> & a0, const rust::Vec<double> & a1) { logr(a0); logr(a1); }
void m_vf64(rust::Vec<double> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const rust::Vec<double> & rr_vf64(const rust::Vec<double> & a0) { logr(a0); return a0; }
rust::Vec<double> & mm_vf64(rust::Vec<double> & a0) { logr(a0); set(a0); return a0; }
const rust::Vec<double> & tr_vf64(const rust::Vec<double> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::Vec<double> & tm_vf64(rust::Vec<double> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_vstring(const rust::Vec<rust::String> & a0, const rust::Vec<rust::String> & a1) { logr(a0); logr(a1); }
void m_vstring(rust::Vec<rust::String> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const rust::Vec<rust::String> & rr_vstring(const rust::Vec<rust::String> & a0) { logr(a0); return a0; }
rust::Vec<rust::String> & mm_vstring(rust::Vec<rust::String> & a0) { logr(a0); set(a0); return a0; }
const rust::Vec<rust::String> & tr_vstring(const rust::Vec<rust::String> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::Vec<rust::String> & tm_vstring(rust::Vec<rust::String> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_vp2(const rust::Vec<P2> & a0, const rust::Vec<P2> & a1) { logr(a0); logr(a1); }
void m_vp2(rust::Vec<P2> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const rust::Vec<P2> & rr_vp2(const rust::Vec<P2> & a0) { logr(a0); return a0; }
rust::Vec<P2> & mm_vp2(rust::Vec<P2> & a0) { logr(a0); set(a0); return a0; }
const rust::Vec<P2> & tr_vp2(const rust::Vec<P2> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::Vec<P2> & tm_vp2(rust::Vec<P2> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_vn(const rust::Vec<N> & a0, const rust::Vec<N> & a1) { logr(a0); logr(a1); }
void m_vn(rust::Vec<N> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const rust::Vec<N> & rr_vn(const rust::Vec<N> & a0) { logr(a0); return a0; }
rust::Vec<N> & mm_vn(rust::Vec<N> & a0) { logr(a0); set(a0); return a0; }
const rust::Vec<N> & tr_vn(const rust::Vec<N> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::Vec<N> & tm_vn(rust::Vec<N> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_vr(const rust::Vec<R> & a0, const rust::Vec<R> & a1) { logr(a0); logr(a1); }
void m_vr(rust::Vec<R> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const rust::Vec<R> & rr_vr(const rust::Vec<R> & a0) { logr(a0); return a0; }
rust::Vec<R> & mm_vr(rust::Vec<R> & a0) { logr(a0); set(a0); return a0; }
const rust::Vec<R> & tr_vr(const rust::Vec<R> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::Vec<R> & tm_vr(rust::Vec<R> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_uobj(const std::unique_ptr<C> & a0, const std::unique_ptr<C> & a1) { logr(a0); logr(a1); }
void m_uobj(std::unique_ptr<C> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::unique_ptr<C> & rr_uobj(const std::unique_ptr<C> & a0) { logr(a0); return a0; }
std::unique_ptr<C> & mm_uobj(std::unique_ptr<C> & a0) { logr(a0); set(a0); return a0; }
const std::unique_ptr<C> & tr_uobj(const std::unique_ptr<C> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::unique_ptr<C> & tm_uobj(std::unique_ptr<C> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_ustr(const std::unique_ptr<std::string> & a0, const std::unique_ptr<std::string> & a1) { logr(a0); logr(a1); }
void m_ustr(std::unique_ptr<std::string> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::unique_ptr<std::string> & rr_ustr(const std::unique_ptr<std::string> & a0) { logr(a0); return a0; }
std::unique_ptr<std::string> & mm_ustr(std::unique_ptr<std::string> & a0) { logr(a0); set(a0); return a0; }
const std::unique_ptr<std::string> & tr_ustr(const std::unique_ptr<std::string> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::unique_ptr<std::string> & tm_ustr(std::unique_ptr<std::string> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_uvec(const std::unique_ptr<std::vector<uint32_t>> & a0, const std::unique_ptr<std::vector<uint32_t>> & a1) { logr(a0); logr(a1); }
void m_uvec(std::unique_ptr<std::vector<uint32_t>> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::unique_ptr<std::vector<uint32_t>> & rr_uvec(const std::unique_ptr<std::vector<uint32_t>> & a0) { logr(a0); return a0; }
std::unique_ptr<std::vector<uint32_t>> & mm_uvec(std::unique_ptr<std::vector<uint32_t>> & a0) { logr(a0); set(a0); return a0; }
const std::unique_ptr<std::vector<uint32_t>> & tr_uvec(const std::unique_ptr<std::vector<uint32_t>> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::unique_ptr<std::vector<uint32_t>> & tm_uvec(std::unique_ptr<std::vector<uint32_t>> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_un(const std::unique_ptr<N> & a0, const std::unique_ptr<N> & a1) { logr(a0); logr(a1); }
void m_un(std::unique_ptr<N> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::unique_ptr<N> & rr_un(const std::unique_ptr<N> & a0) { logr(a0); return a0; }
std::unique_ptr<N> & mm_un(std::unique_ptr<N> & a0) { logr(a0); set(a0); return a0; }
const std::unique_ptr<N> & tr_un(const std::unique_ptr<N> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::unique_ptr<N> & tm_un(std::unique_ptr<N> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_sobj(const std::shared_ptr<C> & a0, const std::shared_ptr<C> & a1) { logr(a0); logr(a1); }
void m_sobj(std::shared_ptr<C> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::shared_ptr<C> & rr_sobj(const std::shared_ptr<C> & a0) { logr(a0); return a0; }
std::shared_ptr<C> & mm_sobj(std::shared_ptr<C> & a0) { logr(a0); set(a0); return a0; }
const std::shared_ptr<C> & tr_sobj(const std::shared_ptr<C> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::shared_ptr<C> & tm_sobj(std::shared_ptr<C> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_su64(const std::shared_ptr<uint64_t> & a0, const std::shared_ptr<uint64_t> & a1) { logr(a0); logr(a1); }
void m_su64(std::shared_ptr<uint64_t> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::shared_ptr<uint64_t> & rr_su64(const std::shared_ptr<uint64_t> & a0) { logr(a0); return a0; }
std::shared_ptr<uint64_t> & mm_su64(std::shared_ptr<uint64_t> & a0) { logr(a0); set(a0); return a0; }
const std::shared_ptr<uint64_t> & tr_su64(const std::shared_ptr<uint64_t> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::shared_ptr<uint64_t> & tm_su64(std::shared_ptr<uint64_t> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_wobj(const std::weak_ptr<C> & a0, const std::weak_ptr<C> & a1) { logr(a0); logr(a1); }
void m_wobj(std::weak_ptr<C> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::weak_ptr<C> & rr_wobj(const std::weak_ptr<C> & a0) { logr(a0); return a0; }
std::weak_ptr<C> & mm_wobj(std::weak_ptr<C> & a0) { logr(a0); set(a0); return a0; }
const std::weak_ptr<C> & tr_wobj(const std::weak_ptr<C> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::weak_ptr<C> & tm_wobj(std::weak_ptr<C> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_p1(const P1 & a0, const P1 & a1) { logr(a0); logr(a1); }
void m_p1(P1 & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const P1 & rr_p1(const P1 & a0) { logr(a0); return a0; }
P1 & mm_p1(P1 & a0) { logr(a0); set(a0); return a0; }
const P1 & tr_p1(const P1 & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
P1 & tm_p1(P1 & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_p2(const P2 & a0, const P2 & a1) { logr(a0); logr(a1); }
void m_p2(P2 & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const P2 & rr_p2(const P2 & a0) { logr(a0); return a0; }
P2 & mm_p2(P2 & a0) { logr(a0); set(a0); return a0; }
const P2 & tr_p2(const P2 & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
P2 & tm_p2(P2 & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_f2(const F2 & a0, const F2 & a1) { logr(a0); logr(a1); }
void m_f2(F2 & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const F2 & rr_f2(const F2 & a0) { logr(a0); return a0; }
F2 & mm_f2(F2 & a0) { logr(a0); set(a0); return a0; }
const F2 & tr_f2(const F2 & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
F2 & tm_f2(F2 & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_fi(const FI & a0, const FI & a1) { logr(a0); logr(a1); }
void m_fi(FI & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const FI & rr_fi(const FI & a0) { logr(a0); return a0; }
FI & mm_fi(FI & a0) { logr(a0); set(a0); return a0; }
const FI & tr_fi(const FI & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
FI & tm_fi(FI & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_q2(const Q2 & a0, const Q2 & a1) { logr(a0); logr(a1); }
void m_q2(Q2 & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const Q2 & rr_q2(const Q2 & a0) { logr(a0); return a0; }
Q2 & mm_q2(Q2 & a0) { logr(a0); set(a0); return a0; }
const Q2 & tr_q2(const Q2 & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
Q2 & tm_q2(Q2 & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_q3(const Q3 & a0, const Q3 & a1) { logr(a0); logr(a1); }
void m_q3(Q3 & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const Q3 & rr_q3(const Q3 & a0) { logr(a0); return a0; }
Q3 & mm_q3(Q3 & a0) { logr(a0); set(a0); return a0; }
const Q3 & tr_q3(const Q3 & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
Q3 & tm_q3(Q3 & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_d4(const D4 & a0, const D4 & a1) { logr(a0); logr(a1); }
void m_d4(D4 & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const D4 & rr_d4(const D4 & a0) { logr(a0); return a0; }
D4 & mm_d4(D4 & a0) { logr(a0); set(a0); return a0; }
const D4 & tr_d4(const D4 & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
D4 & tm_d4(D4 & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_n(const N & a0, const N & a1) { logr(a0); logr(a1); }
void m_n(N & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const N & rr_n(const N & a0) { logr(a0); return a0; }
N & mm_n(N & a0) { logr(a0); set(a0); return a0; }
const N & tr_n(const N & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
N & tm_n(N & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_ar(const Ar & a0, const Ar & a1) { logr(a0); logr(a1); }
void m_ar(Ar & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const Ar & rr_ar(const Ar & a0) { logr(a0); return a0; }
Ar & mm_ar(Ar & a0) { logr(a0); set(a0); return a0; }
const Ar & tr_ar(const Ar & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
Ar & tm_ar(Ar & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_nest(const Nest & a0, const Nest & a1) { logr(a0); logr(a1); }
void m_nest(Nest & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const Nest & rr_nest(const Nest & a0) { logr(a0); return a0; }
Nest & mm_nest(Nest & a0) { logr(a0); set(a0); return a0; }
const Nest & tr_nest(const Nest & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
Nest & tm_nest(Nest & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_en(const En & a0, const En & a1) { logr(a0); logr(a1); }
void m_en(En & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const En & rr_en(const En & a0) { logr(a0); return a0; }
En & mm_en(En & a0) { logr(a0); set(a0); return a0; }
const En & tr_en(const En & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
En & tm_en(En & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_ei16(const Ei16 & a0, const Ei16 & a1) { logr(a0); logr(a1); }
void m_ei16(Ei16 & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const Ei16 & rr_ei16(const Ei16 & a0) { logr(a0); return a0; }
Ei16 & mm_ei16(Ei16 & a0) { logr(a0); set(a0); return a0; }
const Ei16 & tr_ei16(const Ei16 & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
Ei16 & tm_ei16(Ei16 & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_eu64(const Eu64 & a0, const Eu64 & a1) { logr(a0); logr(a1); }
void m_eu64(Eu64 & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const Eu64 & rr_eu64(const Eu64 & a0) { logr(a0); return a0; }
Eu64 & mm_eu64(Eu64 & a0) { logr(a0); set(a0); return a0; }
const Eu64 & tr_eu64(const Eu64 & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
Eu64 & tm_eu64(Eu64 & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_t1(const T1 & a0, const T1 & a1) { logr(a0); logr(a1); }
void m_t1(T1 & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const T1 & rr_t1(const T1 & a0) { logr(a0); return a0; }
T1 & mm_t1(T1 & a0) { logr(a0); set(a0); return a0; }
const T1 & tr_t1(const T1 & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
T1 & tm_t1(T1 & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_t3(const T3 & a0, const T3 & a1) { logr(a0); logr(a1); }
void m_t3(T3 & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const T3 & rr_t3(const T3 & a0) { logr(a0); return a0; }
T3 & mm_t3(T3 & a0) { logr(a0); set(a0); return a0; }
const T3 & tr_t3(const T3 & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
T3 & tm_t3(T3 & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_tx(const Tx & a0, const Tx & a1) { logr(a0); logr(a1); }
void m_tx(Tx & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const Tx & rr_tx(const Tx & a0) { logr(a0); return a0; }
Tx & mm_tx(Tx & a0) { logr(a0); set(a0); return a0; }
const Tx & tr_tx(const Tx & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
Tx & tm_tx(Tx & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_arr5(const std::array<uint8_t, 5> & a0, const std::array<uint8_t, 5> & a1) { logr(a0); logr(a1); }
void m_arr5(std::array<uint8_t, 5> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::array<uint8_t, 5> & rr_arr5(const std::array<uint8_t, 5> & a0) { logr(a0); return a0; }
std::array<uint8_t, 5> & mm_arr5(std::array<uint8_t, 5> & a0) { logr(a0); set(a0); return a0; }
const std::array<uint8_t, 5> & tr_arr5(const std::array<uint8_t, 5> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::array<uint8_t, 5> & tm_arr5(std::array<uint8_t, 5> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_arrs(const std::array<rust::String, 2> & a0, const std::array<rust::String, 2> & a1) { logr(a0); logr(a1); }
void m_arrs(std::array<rust::String, 2> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::array<rust::String, 2> & rr_arrs(const std::array<rust::String, 2> & a0) { logr(a0); return a0; }
std::array<rust::String, 2> & mm_arrs(std::array<rust::String, 2> & a0) { logr(a0); set(a0); return a0; }
const std::array<rust::String, 2> & tr_arrs(const std::array<rust::String, 2> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::array<rust::String, 2> & tm_arrs(std::array<rust::String, 2> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_r(const R & a0, const R & a1) { logr(a0); logr(a1); }
void m_r(R & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const R & rr_r(const R & a0) { logr(a0); return a0; }
R & mm_r(R & a0) { logr(a0); set(a0); return a0; }
const R & tr_r(const R & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
R & tm_r(R & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_c(const C & a0, const C & a1) { logr(a0); logr(a1); }
void m_c(C & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const C & rr_c(const C & a0) { logr(a0); return a0; }
C & mm_c(C & a0) { logr(a0); set(a0); return a0; }
const C & tr_c(const C & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
C & tm_c(C & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_cxxstring(const std::string & a0, const std::string & a1) { logr(a0); logr(a1); }
void m_cxxstring(std::string & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::string & rr_cxxstring(const std::string & a0) { logr(a0); return a0; }
std::string & mm_cxxstring(std::string & a0) { logr(a0); set(a0); return a0; }
const std::string & tr_cxxstring(const std::string & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::string & tm_cxxstring(std::string & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_cxxvector(const std::vector<uint32_t> & a0, const std::vector<uint32_t> & a1) { logr(a0); logr(a1); }
void m_cxxvector(std::vector<uint32_t> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::vector<uint32_t> & rr_cxxvector(const std::vector<uint32_t> & a0) { logr(a0); return a0; }
std::vector<uint32_t> & mm_cxxvector(std::vector<uint32_t> & a0) { logr(a0); set(a0); return a0; }
const std::vector<uint32_t> & tr_cxxvector(const std::vector<uint32_t> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::vector<uint32_t> & tm_cxxvector(std::vector<uint32_t> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void r_cxxvectorn(const std::vector<N> & a0, const std::vector<N> & a1) { logr(a0); logr(a1); }
void m_cxxvectorn(std::vector<N> & a0, uint16_t a1) { logr(a0); log_(a1); set(a0); }
const std::vector<N> & rr_cxxvectorn(const std::vector<N> & a0) { logr(a0); return a0; }
std::vector<N> & mm_cxxvectorn(std::vector<N> & a0) { logr(a0); set(a0); return a0; }
const std::vector<N> & tr_cxxvectorn(const std::vector<N> & a0) { logr(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
std::vector<N> & tm_cxxvectorn(std::vector<N> & a0) { logr(a0); set(a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void s_u8(rust::Slice<const uint8_t> a0, uint32_t a1, rust::Slice<const uint8_t> a2) { log_slice(a0); log_(a1); log_slice(a2); }
void sm_u8(rust::Slice<uint8_t> a0) { log_slice(a0); set_slice(a0); }
rust::Slice<const uint8_t> ss_u8(rust::Slice<const uint8_t> a0) { log_slice(a0); return rust::Slice<const uint8_t>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<uint8_t> sms_u8(rust::Slice<uint8_t> a0) { log_slice(a0); set_slice(a0); return rust::Slice<uint8_t>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<const uint8_t> ts_u8(rust::Slice<const uint8_t> a0) { log_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<const uint8_t>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<uint8_t> tsm_u8(rust::Slice<uint8_t> a0) { log_slice(a0); set_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<uint8_t>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
void s_f64(rust::Slice<const double> a0, uint32_t a1, rust::Slice<const double> a2) { log_slice(a0); log_(a1); log_slice(a2); }
void sm_f64(rust::Slice<double> a0) { log_slice(a0); set_slice(a0); }
rust::Slice<const double> ss_f64(rust::Slice<const double> a0) { log_slice(a0); return rust::Slice<const double>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<double> sms_f64(rust::Slice<double> a0) { log_slice(a0); set_slice(a0); return rust::Slice<double>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<const double> ts_f64(rust::Slice<const double> a0) { log_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<const double>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<double> tsm_f64(rust::Slice<double> a0) { log_slice(a0); set_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<double>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
void s_p2(rust::Slice<const P2> a0, uint32_t a1, rust::Slice<const P2> a2) { log_slice(a0); log_(a1); log_slice(a2); }
void sm_p2(rust::Slice<P2> a0) { log_slice(a0); set_slice(a0); }
rust::Slice<const P2> ss_p2(rust::Slice<const P2> a0) { log_slice(a0); return rust::Slice<const P2>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<P2> sms_p2(rust::Slice<P2> a0) { log_slice(a0); set_slice(a0); return rust::Slice<P2>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<const P2> ts_p2(rust::Slice<const P2> a0) { log_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<const P2>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<P2> tsm_p2(rust::Slice<P2> a0) { log_slice(a0); set_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<P2>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
void s_n(rust::Slice<const N> a0, uint32_t a1, rust::Slice<const N> a2) { log_slice(a0); log_(a1); log_slice(a2); }
void sm_n(rust::Slice<N> a0) { log_slice(a0); set_slice(a0); }
rust::Slice<const N> ss_n(rust::Slice<const N> a0) { log_slice(a0); return rust::Slice<const N>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<N> sms_n(rust::Slice<N> a0) { log_slice(a0); set_slice(a0); return rust::Slice<N>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<const N> ts_n(rust::Slice<const N> a0) { log_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<const N>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<N> tsm_n(rust::Slice<N> a0) { log_slice(a0); set_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<N>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
void s_string(rust::Slice<const rust::String> a0, uint32_t a1, rust::Slice<const rust::String> a2) { log_slice(a0); log_(a1); log_slice(a2); }
void sm_string(rust::Slice<rust::String> a0) { log_slice(a0); set_slice(a0); }
rust::Slice<const rust::String> ss_string(rust::Slice<const rust::String> a0) { log_slice(a0); return rust::Slice<const rust::String>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<rust::String> sms_string(rust::Slice<rust::String> a0) { log_slice(a0); set_slice(a0); return rust::Slice<rust::String>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<const rust::String> ts_string(rust::Slice<const rust::String> a0) { log_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<const rust::String>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<rust::String> tsm_string(rust::Slice<rust::String> a0) { log_slice(a0); set_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<rust::String>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
void s_r(rust::Slice<const R> a0, uint32_t a1, rust::Slice<const R> a2) { log_slice(a0); log_(a1); log_slice(a2); }
void sm_r(rust::Slice<R> a0) { log_slice(a0); set_slice(a0); }
rust::Slice<const R> ss_r(rust::Slice<const R> a0) { log_slice(a0); return rust::Slice<const R>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<R> sms_r(rust::Slice<R> a0) { log_slice(a0); set_slice(a0); return rust::Slice<R>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<const R> ts_r(rust::Slice<const R> a0) { log_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<const R>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<R> tsm_r(rust::Slice<R> a0) { log_slice(a0); set_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<R>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
void s_uobj(rust::Slice<const std::unique_ptr<C>> a0, uint32_t a1, rust::Slice<const std::unique_ptr<C>> a2) { log_slice(a0); log_(a1); log_slice(a2); }
void sm_uobj(rust::Slice<std::unique_ptr<C>> a0) { log_slice(a0); set_slice(a0); }
rust::Slice<const std::unique_ptr<C>> ss_uobj(rust::Slice<const std::unique_ptr<C>> a0) { log_slice(a0); return rust::Slice<const std::unique_ptr<C>>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<std::unique_ptr<C>> sms_uobj(rust::Slice<std::unique_ptr<C>> a0) { log_slice(a0); set_slice(a0); return rust::Slice<std::unique_ptr<C>>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<const std::unique_ptr<C>> ts_uobj(rust::Slice<const std::unique_ptr<C>> a0) { log_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<const std::unique_ptr<C>>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<std::unique_ptr<C>> tsm_uobj(rust::Slice<std::unique_ptr<C>> a0) { log_slice(a0); set_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<std::unique_ptr<C>>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
void s_en(rust::Slice<const En> a0, uint32_t a1, rust::Slice<const En> a2) { log_slice(a0); log_(a1); log_slice(a2); }
void sm_en(rust::Slice<En> a0) { log_slice(a0); set_slice(a0); }
rust::Slice<const En> ss_en(rust::Slice<const En> a0) { log_slice(a0); return rust::Slice<const En>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<En> sms_en(rust::Slice<En> a0) { log_slice(a0); set_slice(a0); return rust::Slice<En>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<const En> ts_en(rust::Slice<const En> a0) { log_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<const En>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<En> tsm_en(rust::Slice<En> a0) { log_slice(a0); set_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<En>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
void s_t3(rust::Slice<const T3> a0, uint32_t a1, rust::Slice<const T3> a2) { log_slice(a0); log_(a1); log_slice(a2); }
void sm_t3(rust::Slice<T3> a0) { log_slice(a0); set_slice(a0); }
rust::Slice<const T3> ss_t3(rust::Slice<const T3> a0) { log_slice(a0); return rust::Slice<const T3>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<T3> sms_t3(rust::Slice<T3> a0) { log_slice(a0); set_slice(a0); return rust::Slice<T3>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<const T3> ts_t3(rust::Slice<const T3> a0) { log_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<const T3>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
rust::Slice<T3> tsm_t3(rust::Slice<T3> a0) { log_slice(a0); set_slice(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Slice<T3>(a0.size() > 1 ? &a0[1] : a0.data(), a0.size() - !a0.empty()); }
const uint8_t * p_u8(const uint8_t * a0, uint8_t * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
uint8_t * pm_u8(uint8_t * a0, const uint8_t * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
const uint8_t * tp_u8(const uint8_t * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
uint8_t * tpm_u8(uint8_t * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
const P2 * p_p2(const P2 * a0, P2 * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
P2 * pm_p2(P2 * a0, const P2 * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
const P2 * tp_p2(const P2 * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
P2 * tpm_p2(P2 * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
const N * p_n(const N * a0, N * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
N * pm_n(N * a0, const N * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
const N * tp_n(const N * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
N * tpm_n(N * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
const C * p_c(const C * a0, C * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
C * pm_c(C * a0, const C * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
const C * tp_c(const C * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
C * tpm_c(C * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
const R * p_r(const R * a0, R * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
R * pm_r(R * a0, const R * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
const R * tp_r(const R * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
R * tpm_r(R * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
const rust::String * p_string(const rust::String * a0, rust::String * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
rust::String * pm_string(rust::String * a0, const rust::String * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
const rust::String * tp_string(const rust::String * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::String * tpm_string(rust::String * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
const rust::Vec<uint8_t> * p_vu8(const rust::Vec<uint8_t> * a0, rust::Vec<uint8_t> * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
rust::Vec<uint8_t> * pm_vu8(rust::Vec<uint8_t> * a0, const rust::Vec<uint8_t> * a1) { loga((size_t)a0); loga((size_t)a1); return a0; }
const rust::Vec<uint8_t> * tp_vu8(const rust::Vec<uint8_t> * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
rust::Vec<uint8_t> * tpm_vu8(rust::Vec<uint8_t> * a0) { loga((size_t)a0); if (next.fail) throw std::runtime_error("Bad"); return a0; }
void st(rust::Str a0, bool a1, rust::Str a2) { log_str(a0); log_(a1); log_str(a2); }
rust::Str sst(rust::Str a0) { log_str(a0); return rust::Str(a0.data() + !a0.empty(), a0.size() - !a0.empty()); }
rust::Str tst(rust::Str a0) { log_str(a0); if (next.fail) throw std::runtime_error("Bad"); return rust::Str(a0.data() + !a0.empty(), a0.size() - !a0.empty()); }
void u() {  }
void tu() { if (next.fail) throw std::runtime_error("Bad"); }
uint8_t mix0(uint8_t a0, rust::String a1, float a2, P2 a3, std::unique_ptr<C> a4, uint64_t a5, rust::Vec<rust::String> a6, double a7, En a8, N a9, int16_t a10, Q3 a11) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); log_(a8); log_(a9); log_(a10); log_(a11); return Val<uint8_t>::mk(next.v, next.k); }
Q3 tmix0(uint8_t a0, rust::String a1, float a2, P2 a3, std::unique_ptr<C> a4, uint64_t a5, rust::Vec<rust::String> a6, double a7, En a8, N a9, int16_t a10, Q3 a11) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); log_(a8); log_(a9); log_(a10); log_(a11); if (next.fail) throw std::runtime_error("Bad"); return Val<Q3>::mk(next.v, next.k); }
double mix1(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, double a8, double a9) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); log_(a8); log_(a9); return Val<double>::mk(next.v, next.k); }
double tmix1(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, double a8, double a9) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); log_(a8); log_(a9); if (next.fail) throw std::runtime_error("Bad"); return Val<double>::mk(next.v, next.k); }
uint64_t mix2(uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t a4, uint64_t a5, uint64_t a6, uint64_t a7, uint64_t a8) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); log_(a8); return Val<uint64_t>::mk(next.v, next.k); }
uint64_t tmix2(uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t a4, uint64_t a5, uint64_t a6, uint64_t a7, uint64_t a8) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); log_(a8); if (next.fail) throw std::runtime_error("Bad"); return Val<uint64_t>::mk(next.v, next.k); }
bool mix3(bool a0, uint8_t a1, bool a2, int8_t a3, char a4, uint16_t a5, int16_t a6, bool a7) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); return Val<bool>::mk(next.v, next.k); }
bool tmix3(bool a0, uint8_t a1, bool a2, int8_t a3, char a4, uint16_t a5, int16_t a6, bool a7) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); if (next.fail) throw std::runtime_error("Bad"); return Val<bool>::mk(next.v, next.k); }
F2 mix4(F2 a0, FI a1, Q2 a2, D4 a3, P1 a4, float a5, Q2 a6, Q2 a7, uint8_t a8) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); log_(a8); return Val<F2>::mk(next.v, next.k); }
uint8_t tmix4(F2 a0, FI a1, Q2 a2, D4 a3, P1 a4, float a5, Q2 a6, Q2 a7, uint8_t a8) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); log_(a8); if (next.fail) throw std::runtime_error("Bad"); return Val<uint8_t>::mk(next.v, next.k); }
N mix5(N a0, N a1, rust::String a2, rust::String a3, rust::Box<R> a4, rust::Box<R> a5, std::shared_ptr<C> a6, std::weak_ptr<C> a7) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); return Val<N>::mk(next.v, next.k); }
std::weak_ptr<C> tmix5(N a0, N a1, rust::String a2, rust::String a3, rust::Box<R> a4, rust::Box<R> a5, std::shared_ptr<C> a6, std::weak_ptr<C> a7) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); log_(a6); log_(a7); if (next.fail) throw std::runtime_error("Bad"); return Val<std::weak_ptr<C>>::mk(next.v, next.k); }
T1 mix6(T1 a0, T3 a1, Tx a2, T1 a3, uint32_t a4, T3 a5) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); return Val<T1>::mk(next.v, next.k); }
T3 tmix6(T1 a0, T3 a1, Tx a2, T1 a3, uint32_t a4, T3 a5) { log_(a0); log_(a1); log_(a2); log_(a3); log_(a4); log_(a5); if (next.fail) throw std::runtime_error("Bad"); return Val<T3>::mk(next.v, next.k); }
rust::Vec<N> mixr(const N & a0, N a1, rust::String & a2, rust::Str a3, rust::Slice<const uint8_t> a4, C & a5, std::unique_ptr<C> a6) { logr(a0); log_(a1); logr(a2); log_str(a3); log_slice(a4); logr(a5); log_(a6); set(a2); set(a5); return Val<rust::Vec<N>>::mk(next.v, next.k); }
F2 tmixr(N & a0, rust::Str a1, rust::String a2, const rust::String & a3, rust::Slice<P2> a4) { logr(a0); log_str(a1); log_(a2); logr(a3); log_slice(a4); set(a0); set_slice(a4); if (next.fail) throw std::runtime_error("Bad"); return Val<F2>::mk(next.v, next.k); }
uint32_t C::q0_c(uint32_t a0) const { loga((size_t)this);  log_(a0); return Val<uint32_t>::mk(next.v, next.k); }
N C::Q1c(rust::String a0, N a1) const { loga((size_t)this);  log_(a0); log_(a1); return Val<N>::mk(next.v, next.k); }
void C::q2_c(rust::Str a0, const N & a1) const { loga((size_t)this);  log_str(a0); logr(a1); }
F2 C::Q3c(double a0, F2 a1) const { loga((size_t)this);  log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<F2>::mk(next.v, next.k); }
void C::q4_c(rust::Box<R> a0) const { loga((size_t)this);  log_(a0); if (next.fail) throw std::runtime_error("Bad"); }
rust::Vec<rust::String> C::Q5c() const { loga((size_t)this);  return Val<rust::Vec<rust::String>>::mk(next.v, next.k); }
Q3 C::q6_c(Q2 a0, Q3 a1) const { loga((size_t)this);  log_(a0); log_(a1); return Val<Q3>::mk(next.v, next.k); }
uint32_t C::q0_cm(uint32_t a0) { loga((size_t)this);  log_(a0); set(*this); return Val<uint32_t>::mk(next.v, next.k); }
N C::Q1cm(rust::String a0, N a1) { loga((size_t)this);  log_(a0); log_(a1); set(*this); return Val<N>::mk(next.v, next.k); }
void C::q2_cm(rust::Str a0, const N & a1) { loga((size_t)this);  log_str(a0); logr(a1); set(*this); }
F2 C::Q3cm(double a0, F2 a1) { loga((size_t)this);  log_(a0); log_(a1); set(*this); if (next.fail) throw std::runtime_error("Bad"); return Val<F2>::mk(next.v, next.k); }
void C::q4_cm(rust::Box<R> a0) { loga((size_t)this);  log_(a0); set(*this); if (next.fail) throw std::runtime_error("Bad"); }
rust::Vec<rust::String> C::Q5cm() { loga((size_t)this);  set(*this); return Val<rust::Vec<rust::String>>::mk(next.v, next.k); }
Q3 C::q6_cm(Q2 a0, Q3 a1) { loga((size_t)this);  log_(a0); log_(a1); set(*this); return Val<Q3>::mk(next.v, next.k); }
uint32_t P2::q0_p2(uint32_t a0) const noexcept { loga((size_t)this); log_(*this); log_(a0); return Val<uint32_t>::mk(next.v, next.k); }
N P2::Q1p2(rust::String a0, N a1) const noexcept { loga((size_t)this); log_(*this); log_(a0); log_(a1); return Val<N>::mk(next.v, next.k); }
void P2::q2_p2(rust::Str a0, const N & a1) const noexcept { loga((size_t)this); log_(*this); log_str(a0); logr(a1); }
F2 P2::Q3p2(double a0, F2 a1) const { loga((size_t)this); log_(*this); log_(a0); log_(a1); if (next.fail) throw std::runtime_error("Bad"); return Val<F2>::mk(next.v, next.k); }
void P2::q4_p2(rust::Box<R> a0) const { loga((size_t)this); log_(*this); log_(a0); if (next.fail) throw std::runtime_error("Bad"); }
rust::Vec<rust::String> P2::Q5p2() const noexcept { loga((size_t)this); log_(*this); return Val<rust::Vec<rust::String>>::mk(next.v, next.k); }
Q3 P2::q6_p2(Q2 a0, Q3 a1) const noexcept { loga((size_t)this); log_(*this); log_(a0); log_(a1); return Val<Q3>::mk(next.v, next.k); }
uint32_t P2::q0_p2m(uint32_t a0) noexcept { loga((size_t)this); log_(*this); log_(a0); set(*this); return Val<uint32_t>::mk(next.v, next.k); }
N P2::Q1p2m(rust::String a0, N a1) noexcept { loga((size_t)this); log_(*this); log_(a0); log_(a1); set(*this); return Val<N>::mk(next.v, next.k); }
void P2::q2_p2m(rust::Str a0, const N & a1) noexcept { loga((size_t)this); log_(*this); log_str(a0); logr(a1); set(*this); }
F2 P2::Q3p2m(double a0, F2 a1) { loga((size_t)this); log_(*this); log_(a0); log_(a1); set(*this); if (next.fail) throw std::runtime_error("Bad"); return Val<F2>::mk(next.v, next.k); }
void P2::q4_p2m(rust::Box<R> a0) { loga((size_t)this); log_(*this); log_(a0); set(*this); if (next.fail) throw std::runtime_error("Bad"); }
rust::Vec<rust::String> P2::Q5p2m() noexcept { loga((size_t)this); log_(*this); set(*this); return Val<rust::Vec<rust::String>>::mk(next.v, next.k); }
Q3 P2::q6_p2m(Q2 a0, Q3 a1) noexcept { loga((size_t)this); log_(*this); log_(a0); log_(a1); set(*this); return Val<Q3>::mk(next.v, next.k); }
