#pragma once
#define METHODS_C uint32_t q0_c(uint32_t a0) const; N Q1c(rust::String a0, N a1) const; void q2_c(rust::Str a0, const N & a1) const; F2 Q3c(double a0, F2 a1) const; void q4_c(rust::Box<R> a0) const; rust::Vec<rust::String> Q5c() const; Q3 q6_c(Q2 a0, Q3 a1) const; uint32_t q0_cm(uint32_t a0); N Q1cm(rust::String a0, N a1); void q2_cm(rust::Str a0, const N & a1); F2 Q3cm(double a0, F2 a1); void q4_cm(rust::Box<R> a0); rust::Vec<rust::String> Q5cm(); Q3 q6_cm(Q2 a0, Q3 a1);
#define METHODS_N 
#define METHODS_P2 uint32_t q0_p2(uint32_t a0) const noexcept; N Q1p2(rust::String a0, N a1) const noexcept; void q2_p2(rust::Str a0, const N & a1) const noexcept; F2 Q3p2(double a0, F2 a1) const; void q4_p2(rust::Box<R> a0) const; rust::Vec<rust::String> Q5p2() const noexcept; Q3 q6_p2(Q2 a0, Q3 a1) const noexcept; uint32_t q0_p2m(uint32_t a0) noexcept; N Q1p2m(rust::String a0, N a1) noexcept; void q2_p2m(rust::Str a0, const N & a1) noexcept; F2 Q3p2m(double a0, F2 a1); void q4_p2m(rust::Box<R> a0); rust::Vec<rust::String> Q5p2m() noexcept; Q3 q6_p2m(Q2 a0, Q3 a1) noexcept;
#include "calls_types.h"
bool v_bool(bool a0);
bool w_bool(uint8_t a0, bool a1, bool a2, uint64_t a3);
bool t_bool(bool a0, uint16_t a1);
char v_c_char(char a0);
char w_c_char(uint8_t a0, char a1, char a2, uint64_t a3);
char t_c_char(char a0, uint16_t a1);
uint8_t v_u8(uint8_t a0);
uint8_t w_u8(uint8_t a0, uint8_t a1, uint8_t a2, uint64_t a3);
uint8_t t_u8(uint8_t a0, uint16_t a1);
uint16_t v_u16(uint16_t a0);
uint16_t w_u16(uint8_t a0, uint16_t a1, uint16_t a2, uint64_t a3);
uint16_t t_u16(uint16_t a0, uint16_t a1);
uint32_t v_u32(uint32_t a0);
uint32_t w_u32(uint8_t a0, uint32_t a1, uint32_t a2, uint64_t a3);
uint32_t t_u32(uint32_t a0, uint16_t a1);
uint64_t v_u64(uint64_t a0);
uint64_t w_u64(uint8_t a0, uint64_t a1, uint64_t a2, uint64_t a3);
uint64_t t_u64(uint64_t a0, uint16_t a1);
size_t v_usize(size_t a0);
size_t w_usize(uint8_t a0, size_t a1, size_t a2, uint64_t a3);
size_t t_usize(size_t a0, uint16_t a1);
int8_t v_i8(int8_t a0);
int8_t w_i8(uint8_t a0, int8_t a1, int8_t a2, uint64_t a3);
int8_t t_i8(int8_t a0, uint16_t a1);
int16_t v_i16(int16_t a0);
int16_t w_i16(uint8_t a0, int16_t a1, int16_t a2, uint64_t a3);
int16_t t_i16(int16_t a0, uint16_t a1);
int32_t v_i32(int32_t a0);
int32_t w_i32(uint8_t a0, int32_t a1, int32_t a2, uint64_t a3);
int32_t t_i32(int32_t a0, uint16_t a1);
int64_t v_i64(int64_t a0);
int64_t w_i64(uint8_t a0, int64_t a1, int64_t a2, uint64_t a3);
int64_t t_i64(int64_t a0, uint16_t a1);
rust::isize v_isize(rust::isize a0);
rust::isize w_isize(uint8_t a0, rust::isize a1, rust::isize a2, uint64_t a3);
rust::isize t_isize(rust::isize a0, uint16_t a1);
float v_f32(float a0);
float w_f32(uint8_t a0, float a1, float a2, uint64_t a3);
float t_f32(float a0, uint16_t a1);
double v_f64(double a0);
double w_f64(uint8_t a0, double a1, double a2, uint64_t a3);
double t_f64(double a0, uint16_t a1);
rust::String v_string(rust::String a0);
rust::String w_string(uint8_t a0, rust::String a1, rust::String a2, uint64_t a3);
rust::String t_string(rust::String a0, uint16_t a1);
rust::Box<R> v_box(rust::Box<R> a0);
rust::Box<R> w_box(uint8_t a0, rust::Box<R> a1, rust::Box<R> a2, uint64_t a3);
rust::Box<R> t_box(rust::Box<R> a0, uint16_t a1);
rust::Box<N> v_boxn(rust::Box<N> a0);
rust::Box<N> w_boxn(uint8_t a0, rust::Box<N> a1, rust::Box<N> a2, uint64_t a3);
rust::Box<N> t_boxn(rust::Box<N> a0, uint16_t a1);
rust::Vec<uint8_t> v_vu8(rust::Vec<uint8_t> a0);
rust::Vec<uint8_t> w_vu8(uint8_t a0, rust::Vec<uint8_t> a1, rust::Vec<uint8_t> a2, uint64_t a3);
rust::Vec<uint8_t> t_vu8(rust::Vec<uint8_t> a0, uint16_t a1);
rust::Vec<bool> v_vbool(rust::Vec<bool> a0);
rust::Vec<bool> w_vbool(uint8_t a0, rust::Vec<bool> a1, rust::Vec<bool> a2, uint64_t a3);
rust::Vec<bool> t_vbool(rust::Vec<bool> a0, uint16_t a1);
rust::Vec<double> v_vf64(rust::Vec<double> a0);
rust::Vec<double> w_vf64(uint8_t a0, rust::Vec<double> a1, rust::Vec<double> a2, uint64_t a3);
rust::Vec<double> t_vf64(rust::Vec<double> a0, uint16_t a1);
rust::Vec<rust::String> v_vstring(rust::Vec<rust::String> a0);
rust::Vec<rust::String> w_vstring(uint8_t a0, rust::Vec<rust::String> a1, rust::Vec<rust::String> a2, uint64_t a3);
rust::Vec<rust::String> t_vstring(rust::Vec<rust::String> a0, uint16_t a1);
rust::Vec<P2> v_vp2(rust::Vec<P2> a0);
rust::Vec<P2> w_vp2(uint8_t a0, rust::Vec<P2> a1, rust::Vec<P2> a2, uint64_t a3);
rust::Vec<P2> t_vp2(rust::Vec<P2> a0, uint16_t a1);
rust::Vec<N> v_vn(rust::Vec<N> a0);
rust::Vec<N> w_vn(uint8_t a0, rust::Vec<N> a1, rust::Vec<N> a2, uint64_t a3);
rust::Vec<N> t_vn(rust::Vec<N> a0, uint16_t a1);
rust::Vec<R> v_vr(rust::Vec<R> a0);
rust::Vec<R> w_vr(uint8_t a0, rust::Vec<R> a1, rust::Vec<R> a2, uint64_t a3);
rust::Vec<R> t_vr(rust::Vec<R> a0, uint16_t a1);
std::unique_ptr<C> v_uobj(std::unique_ptr<C> a0);
std::unique_ptr<C> w_uobj(uint8_t a0, std::unique_ptr<C> a1, std::unique_ptr<C> a2, uint64_t a3);
std::unique_ptr<C> t_uobj(std::unique_ptr<C> a0, uint16_t a1);
std::unique_ptr<std::string> v_ustr(std::unique_ptr<std::string> a0);
std::unique_ptr<std::string> w_ustr(uint8_t a0, std::unique_ptr<std::string> a1, std::unique_ptr<std::string> a2, uint64_t a3);
std::unique_ptr<std::string> t_ustr(std::unique_ptr<std::string> a0, uint16_t a1);
std::unique_ptr<std::vector<uint32_t>> v_uvec(std::unique_ptr<std::vector<uint32_t>> a0);
std::unique_ptr<std::vector<uint32_t>> w_uvec(uint8_t a0, std::unique_ptr<std::vector<uint32_t>> a1, std::unique_ptr<std::vector<uint32_t>> a2, uint64_t a3);
std::unique_ptr<std::vector<uint32_t>> t_uvec(std::unique_ptr<std::vector<uint32_t>> a0, uint16_t a1);
std::unique_ptr<N> v_un(std::unique_ptr<N> a0);
std::unique_ptr<N> w_un(uint8_t a0, std::unique_ptr<N> a1, std::unique_ptr<N> a2, uint64_t a3);
std::unique_ptr<N> t_un(std::unique_ptr<N> a0, uint16_t a1);
std::shared_ptr<C> v_sobj(std::shared_ptr<C> a0);
std::shared_ptr<C> w_sobj(uint8_t a0, std::shared_ptr<C> a1, std::shared_ptr<C> a2, uint64_t a3);
std::shared_ptr<C> t_sobj(std::shared_ptr<C> a0, uint16_t a1);
std::shared_ptr<uint64_t> v_su64(std::shared_ptr<uint64_t> a0);
std::shared_ptr<uint64_t> w_su64(uint8_t a0, std::shared_ptr<uint64_t> a1, std::shared_ptr<uint64_t> a2, uint64_t a3);
std::shared_ptr<uint64_t> t_su64(std::shared_ptr<uint64_t> a0, uint16_t a1);
std::weak_ptr<C> v_wobj(std::weak_ptr<C> a0);
std::weak_ptr<C> w_wobj(uint8_t a0, std::weak_ptr<C> a1, std::weak_ptr<C> a2, uint64_t a3);
std::weak_ptr<C> t_wobj(std::weak_ptr<C> a0, uint16_t a1);
P1 v_p1(P1 a0);
P1 w_p1(uint8_t a0, P1 a1, P1 a2, uint64_t a3);
P1 t_p1(P1 a0, uint16_t a1);
P2 v_p2(P2 a0);
P2 w_p2(uint8_t a0, P2 a1, P2 a2, uint64_t a3);
P2 t_p2(P2 a0, uint16_t a1);
F2 v_f2(F2 a0);
F2 w_f2(uint8_t a0, F2 a1, F2 a2, uint64_t a3);
F2 t_f2(F2 a0, uint16_t a1);
FI v_fi(FI a0);
FI w_fi(uint8_t a0, FI a1, FI a2, uint64_t a3);
FI t_fi(FI a0, uint16_t a1);
Q2 v_q2(Q2 a0);
Q2 w_q2(uint8_t a0, Q2 a1, Q2 a2, uint64_t a3);
Q2 t_q2(Q2 a0, uint16_t a1);
Q3 v_q3(Q3 a0);
Q3 w_q3(uint8_t a0, Q3 a1, Q3 a2, uint64_t a3);
Q3 t_q3(Q3 a0, uint16_t a1);
D4 v_d4(D4 a0);
D4 w_d4(uint8_t a0, D4 a1, D4 a2, uint64_t a3);
D4 t_d4(D4 a0, uint16_t a1);
N v_n(N a0);
N w_n(uint8_t a0, N a1, N a2, uint64_t a3);
N t_n(N a0, uint16_t a1);
Ar v_ar(Ar a0);
Ar w_ar(uint8_t a0, Ar a1, Ar a2, uint64_t a3);
Ar t_ar(Ar a0, uint16_t a1);
Nest v_nest(Nest a0);
Nest w_nest(uint8_t a0, Nest a1, Nest a2, uint64_t a3);
Nest t_nest(Nest a0, uint16_t a1);
En v_en(En a0);
En w_en(uint8_t a0, En a1, En a2, uint64_t a3);
En t_en(En a0, uint16_t a1);
Ei16 v_ei16(Ei16 a0);
Ei16 w_ei16(uint8_t a0, Ei16 a1, Ei16 a2, uint64_t a3);
Ei16 t_ei16(Ei16 a0, uint16_t a1);
Eu64 v_eu64(Eu64 a0);
Eu64 w_eu64(uint8_t a0, Eu64 a1, Eu64 a2, uint64_t a3);
Eu64 t_eu64(Eu64 a0, uint16_t a1);
T1 v_t1(T1 a0);
T1 w_t1(uint8_t a0, T1 a1, T1 a2, uint64_t a3);
T1 t_t1(T1 a0, uint16_t a1);
T3 v_t3(T3 a0);
T3 w_t3(uint8_t a0, T3 a1, T3 a2, uint64_t a3);
T3 t_t3(T3 a0, uint16_t a1);
Tx v_tx(Tx a0);
Tx w_tx(uint8_t a0, Tx a1, Tx a2, uint64_t a3);
Tx t_tx(Tx a0, uint16_t a1);
std::array<uint8_t, 5> v_arr5(std::array<uint8_t, 5> a0);
std::array<uint8_t, 5> w_arr5(uint8_t a0, std::array<uint8_t, 5> a1, std::array<uint8_t, 5> a2, uint64_t a3);
std::array<uint8_t, 5> t_arr5(std::array<uint8_t, 5> a0, uint16_t a1);
std::array<rust::String, 2> v_arrs(std::array<rust::String, 2> a0);
std::array<rust::String, 2> w_arrs(uint8_t a0, std::array<rust::String, 2> a1, std::array<rust::String, 2> a2, uint64_t a3);
std::array<rust::String, 2> t_arrs(std::array<rust::String, 2> a0, uint16_t a1);
void r_bool(const bool & a0, const bool & a1);
void m_bool(bool & a0, uint16_t a1);
const bool & rr_bool(const bool & a0);
bool & mm_bool(bool & a0);
const bool & tr_bool(const bool & a0);
bool & tm_bool(bool & a0);
void r_c_char(const char & a0, const char & a1);
void m_c_char(char & a0, uint16_t a1);
const char & rr_c_char(const char & a0);
char & mm_c_char(char & a0);
const char & tr_c_char(const char & a0);
char & tm_c_char(char & a0);
void r_u8(const uint8_t & a0, const uint8_t & a1);
void m_u8(uint8_t & a0, uint16_t a1);
const uint8_t & rr_u8(const uint8_t & a0);
uint8_t & mm_u8(uint8_t & a0);
const uint8_t & tr_u8(const uint8_t & a0);
uint8_t & tm_u8(uint8_t & a0);
void r_u16(const uint16_t & a0, const uint16_t & a1);
void m_u16(uint16_t & a0, uint16_t a1);
const uint16_t & rr_u16(const uint16_t & a0);
uint16_t & mm_u16(uint16_t & a0);
const uint16_t & tr_u16(const uint16_t & a0);
uint16_t & tm_u16(uint16_t & a0);
void r_u32(const uint32_t & a0, const uint32_t & a1);
void m_u32(uint32_t & a0, uint16_t a1);
const uint32_t & rr_u32(const uint32_t & a0);
uint32_t & mm_u32(uint32_t & a0);
const uint32_t & tr_u32(const uint32_t & a0);
uint32_t & tm_u32(uint32_t & a0);
void r_u64(const uint64_t & a0, const uint64_t & a1);
void m_u64(uint64_t & a0, uint16_t a1);
const uint64_t & rr_u64(const uint64_t & a0);
uint64_t & mm_u64(uint64_t & a0);
const uint64_t & tr_u64(const uint64_t & a0);
uint64_t & tm_u64(uint64_t & a0);
void r_usize(const size_t & a0, const size_t & a1);
void m_usize(size_t & a0, uint16_t a1);
const size_t & rr_usize(const size_t & a0);
size_t & mm_usize(size_t & a0);
const size_t & tr_usize(const size_t & a0);
size_t & tm_usize(size_t & a0);
void r_i8(const int8_t & a0, const int8_t & a1);
void m_i8(int8_t & a0, uint16_t a1);
const int8_t & rr_i8(const int8_t & a0);
int8_t & mm_i8(int8_t & a0);
const int8_t & tr_i8(const int8_t & a0);
int8_t & tm_i8(int8_t & a0);
void r_i16(const int16_t & a0, const int16_t & a1);
void m_i16(int16_t & a0, uint16_t a1);
const int16_t & rr_i16(const int16_t & a0);
int16_t & mm_i16(int16_t & a0);
const int16_t & tr_i16(const int16_t & a0);
int16_t & tm_i16(int16_t & a0);
void r_i32(const int32_t & a0, const int32_t & a1);
void m_i32(int32_t & a0, uint16_t a1);
const int32_t & rr_i32(const int32_t & a0);
int32_t & mm_i32(int32_t & a0);
const int32_t & tr_i32(const int32_t & a0);
int32_t & tm_i32(int32_t & a0);
void r_i64(const int64_t & a0, const int64_t & a1);
void m_i64(int64_t & a0, uint16_t a1);
const int64_t & rr_i64(const int64_t & a0);
int64_t & mm_i64(int64_t & a0);
const int64_t & tr_i64(const int64_t & a0);
int64_t & tm_i64(int64_t & a0);
void r_isize(const rust::isize & a0, const rust::isize & a1);
void m_isize(rust::isize & a0, uint16_t a1);
const rust::isize & rr_isize(const rust::isize & a0);
rust::isize & mm_isize(rust::isize & a0);
const rust::isize & tr_isize(const rust::isize & a0);
rust::isize & tm_isize(rust::isize & a0);
void r_f32(const float & a0, const float & a1);
void m_f32(float & a0, uint16_t a1);
const float & rr_f32(const float & a0);
float & mm_f32(float & a0);
const float & tr_f32(const float & a0);
float & tm_f32(float & a0);
void r_f64(const double & a0, const double & a1);
void m_f64(double & a0, uint16_t a1);
const double & rr_f64(const double & a0);
double & mm_f64(double & a0);
const double & tr_f64(const double & a0);
double & tm_f64(double & a0);
void r_string(const rust::String & a0, const rust::String & a1);
void m_string(rust::String & a0, uint16_t a1);
const rust::String & rr_string(const rust::String & a0);
rust::String & mm_string(rust::String & a0);
const rust::String & tr_string(const rust::String & a0);
rust::String & tm_string(rust::String & a0);
void r_box(const rust::Box<R> & a0, const rust::Box<R> & a1);
void m_box(rust::Box<R> & a0, uint16_t a1);
const rust::Box<R> & rr_box(const rust::Box<R> & a0);
rust::Box<R> & mm_box(rust::Box<R> & a0);
const rust::Box<R> & tr_box(const rust::Box<R> & a0);
rust::Box<R> & tm_box(rust::Box<R> & a0);
void r_boxn(const rust::Box<N> & a0, const rust::Box<N> & a1);
void m_boxn(rust::Box<N> & a0, uint16_t a1);
const rust::Box<N> & rr_boxn(const rust::Box<N> & a0);
rust::Box<N> & mm_boxn(rust::Box<N> & a0);
const rust::Box<N> & tr_boxn(const rust::Box<N> & a0);
rust::Box<N> & tm_boxn(rust::Box<N> & a0);
void r_vu8(const rust::Vec<uint8_t> & a0, const rust::Vec<uint8_t> & a1);
void m_vu8(rust::Vec<uint8_t> & a0, uint16_t a1);
const rust::Vec<uint8_t> & rr_vu8(const rust::Vec<uint8_t> & a0);
rust::Vec<uint8_t> & mm_vu8(rust::Vec<uint8_t> & a0);
const rust::Vec<uint8_t> & tr_vu8(const rust::Vec<uint8_t> & a0);
rust::Vec<uint8_t> & tm_vu8(rust::Vec<uint8_t> & a0);
void r_vbool(const rust::Vec<bool> & a0, const rust::Vec<bool> & a1);
void m_vbool(rust::Vec<bool> & a0, uint16_t a1);
const rust::Vec<bool> & rr_vbool(const rust::Vec<bool> & a0);
rust::Vec<bool> & mm_vbool(rust::Vec<bool> & a0);
const rust::Vec<bool> & tr_vbool(const rust::Vec<bool> & a0);
rust::Vec<bool> & tm_vbool(rust::Vec<bool> & a0);
void r_vf64(const rust::Vec<double> & a0, const rust::Vec<double> & a1);
void m_vf64(rust::Vec<double> & a0, uint16_t a1);
const rust::Vec<double> & rr_vf64(const rust::Vec<double> & a0);
rust::Vec<double> & mm_vf64(rust::Vec<double> & a0);
const rust::Vec<double> & tr_vf64(const rust::Vec<double> & a0);
rust::Vec<double> & tm_vf64(rust::Vec<double> & a0);
void r_vstring(const rust::Vec<rust::String> & a0, const rust::Vec<rust::String> & a1);
void m_vstring(rust::Vec<rust::String> & a0, uint16_t a1);
const rust::Vec<rust::String> & rr_vstring(const rust::Vec<rust::String> & a0);
rust::Vec<rust::String> & mm_vstring(rust::Vec<rust::String> & a0);
const rust::Vec<rust::String> & tr_vstring(const rust::Vec<rust::String> & a0);
rust::Vec<rust::String> & tm_vstring(rust::Vec<rust::String> & a0);
void r_vp2(const rust::Vec<P2> & a0, const rust::Vec<P2> & a1);
void m_vp2(rust::Vec<P2> & a0, uint16_t a1);
const rust::Vec<P2> & rr_vp2(const rust::Vec<P2> & a0);
rust::Vec<P2> & mm_vp2(rust::Vec<P2> & a0);
const rust::Vec<P2> & tr_vp2(const rust::Vec<P2> & a0);
rust::Vec<P2> & tm_vp2(rust::Vec<P2> & a0);
void r_vn(const rust::Vec<N> & a0, const rust::Vec<N> & a1);
void m_vn(rust::Vec<N> & a0, uint16_t a1);
const rust::Vec<N> & rr_vn(const rust::Vec<N> & a0);
rust::Vec<N> & mm_vn(rust::Vec<N> & a0);
const rust::Vec<N> & tr_vn(const rust::Vec<N> & a0);
rust::Vec<N> & tm_vn(rust::Vec<N> & a0);
void r_vr(const rust::Vec<R> & a0, const rust::Vec<R> & a1);
void m_vr(rust::Vec<R> & a0, uint16_t a1);
const rust::Vec<R> & rr_vr(const rust::Vec<R> & a0);
rust::Vec<R> & mm_vr(rust::Vec<R> & a0);
const rust::Vec<R> & tr_vr(const rust::Vec<R> & a0);
rust::Vec<R> & tm_vr(rust::Vec<R> & a0);
void r_uobj(const std::unique_ptr<C> & a0, const std::unique_ptr<C> & a1);
void m_uobj(std::unique_ptr<C> & a0, uint16_t a1);
const std::unique_ptr<C> & rr_uobj(const std::unique_ptr<C> & a0);
std::unique_ptr<C> & mm_uobj(std::unique_ptr<C> & a0);
const std::unique_ptr<C> & tr_uobj(const std::unique_ptr<C> & a0);
std::unique_ptr<C> & tm_uobj(std::unique_ptr<C> & a0);
void r_ustr(const std::unique_ptr<std::string> & a0, const std::unique_ptr<std::string> & a1);
void m_ustr(std::unique_ptr<std::string> & a0, uint16_t a1);
const std::unique_ptr<std::string> & rr_ustr(const std::unique_ptr<std::string> & a0);
std::unique_ptr<std::string> & mm_ustr(std::unique_ptr<std::string> & a0);
const std::unique_ptr<std::string> & tr_ustr(const std::unique_ptr<std::string> & a0);
std::unique_ptr<std::string> & tm_ustr(std::unique_ptr<std::string> & a0);
void r_uvec(const std::unique_ptr<std::vector<uint32_t>> & a0, const std::unique_ptr<std::vector<uint32_t>> & a1);
void m_uvec(std::unique_ptr<std::vector<uint32_t>> & a0, uint16_t a1);
const std::unique_ptr<std::vector<uint32_t>> & rr_uvec(const std::unique_ptr<std::vector<uint32_t>> & a0);
std::unique_ptr<std::vector<uint32_t>> & mm_uvec(std::unique_ptr<std::vector<uint32_t>> & a0);
const std::unique_ptr<std::vector<uint32_t>> & tr_uvec(const std::unique_ptr<std::vector<uint32_t>> & a0);
std::unique_ptr<std::vector<uint32_t>> & tm_uvec(std::unique_ptr<std::vector<uint32_t>> & a0);
void r_un(const std::unique_ptr<N> & a0, const std::unique_ptr<N> & a1);
void m_un(std::unique_ptr<N> & a0, uint16_t a1);
const std::unique_ptr<N> & rr_un(const std::unique_ptr<N> & a0);
std::unique_ptr<N> & mm_un(std::unique_ptr<N> & a0);
const std::unique_ptr<N> & tr_un(const std::unique_ptr<N> & a0);
std::unique_ptr<N> & tm_un(std::unique_ptr<N> & a0);
void r_sobj(const std::shared_ptr<C> & a0, const std::shared_ptr<C> & a1);
void m_sobj(std::shared_ptr<C> & a0, uint16_t a1);
const std::shared_ptr<C> & rr_sobj(const std::shared_ptr<C> & a0);
std::shared_ptr<C> & mm_sobj(std::shared_ptr<C> & a0);
const std::shared_ptr<C> & tr_sobj(const std::shared_ptr<C> & a0);
std::shared_ptr<C> & tm_sobj(std::shared_ptr<C> & a0);
void r_su64(const std::shared_ptr<uint64_t> & a0, const std::shared_ptr<uint64_t> & a1);
void m_su64(std::shared_ptr<uint64_t> & a0, uint16_t a1);
const std::shared_ptr<uint64_t> & rr_su64(const std::shared_ptr<uint64_t> & a0);
std::shared_ptr<uint64_t> & mm_su64(std::shared_ptr<uint64_t> & a0);
const std::shared_ptr<uint64_t> & tr_su64(const std::shared_ptr<uint64_t> & a0);
std::shared_ptr<uint64_t> & tm_su64(std::shared_ptr<uint64_t> & a0);
void r_wobj(const std::weak_ptr<C> & a0, const std::weak_ptr<C> & a1);
void m_wobj(std::weak_ptr<C> & a0, uint16_t a1);
const std::weak_ptr<C> & rr_wobj(const std::weak_ptr<C> & a0);
std::weak_ptr<C> & mm_wobj(std::weak_ptr<C> & a0);
const std::weak_ptr<C> & tr_wobj(const std::weak_ptr<C> & a0);
std::weak_ptr<C> & tm_wobj(std::weak_ptr<C> & a0);
void r_p1(const P1 & a0, const P1 & a1);
void m_p1(P1 & a0, uint16_t a1);
const P1 & rr_p1(const P1 & a0);
P1 & mm_p1(P1 & a0);
const P1 & tr_p1(const P1 & a0);
P1 & tm_p1(P1 & a0);
void r_p2(const P2 & a0, const P2 & a1);
void m_p2(P2 & a0, uint16_t a1);
const P2 & rr_p2(const P2 & a0);
P2 & mm_p2(P2 & a0);
const P2 & tr_p2(const P2 & a0);
P2 & tm_p2(P2 & a0);
void r_f2(const F2 & a0, const F2 & a1);
void m_f2(F2 & a0, uint16_t a1);
const F2 & rr_f2(const F2 & a0);
F2 & mm_f2(F2 & a0);
const F2 & tr_f2(const F2 & a0);
F2 & tm_f2(F2 & a0);
void r_fi(const FI & a0, const FI & a1);
void m_fi(FI & a0, uint16_t a1);
const FI & rr_fi(const FI & a0);
FI & mm_fi(FI & a0);
const FI & tr_fi(const FI & a0);
FI & tm_fi(FI & a0);
void r_q2(const Q2 & a0, const Q2 & a1);
void m_q2(Q2 & a0, uint16_t a1);
const Q2 & rr_q2(const Q2 & a0);
Q2 & mm_q2(Q2 & a0);
const Q2 & tr_q2(const Q2 & a0);
Q2 & tm_q2(Q2 & a0);
void r_q3(const Q3 & a0, const Q3 & a1);
void m_q3(Q3 & a0, uint16_t a1);
const Q3 & rr_q3(const Q3 & a0);
Q3 & mm_q3(Q3 & a0);
const Q3 & tr_q3(const Q3 & a0);
Q3 & tm_q3(Q3 & a0);
void r_d4(const D4 & a0, const D4 & a1);
void m_d4(D4 & a0, uint16_t a1);
const D4 & rr_d4(const D4 & a0);
D4 & mm_d4(D4 & a0);
const D4 & tr_d4(const D4 & a0);
D4 & tm_d4(D4 & a0);
void r_n(const N & a0, const N & a1);
void m_n(N & a0, uint16_t a1);
const N & rr_n(const N & a0);
N & mm_n(N & a0);
const N & tr_n(const N & a0);
N & tm_n(N & a0);
void r_ar(const Ar & a0, const Ar & a1);
void m_ar(Ar & a0, uint16_t a1);
const Ar & rr_ar(const Ar & a0);
Ar & mm_ar(Ar & a0);
const Ar & tr_ar(const Ar & a0);
Ar & tm_ar(Ar & a0);
void r_nest(const Nest & a0, const Nest & a1);
void m_nest(Nest & a0, uint16_t a1);
const Nest & rr_nest(const Nest & a0);
Nest & mm_nest(Nest & a0);
const Nest & tr_nest(const Nest & a0);
Nest & tm_nest(Nest & a0);
void r_en(const En & a0, const En & a1);
void m_en(En & a0, uint16_t a1);
const En & rr_en(const En & a0);
En & mm_en(En & a0);
const En & tr_en(const En & a0);
En & tm_en(En & a0);
void r_ei16(const Ei16 & a0, const Ei16 & a1);
void m_ei16(Ei16 & a0, uint16_t a1);
const Ei16 & rr_ei16(const Ei16 & a0);
Ei16 & mm_ei16(Ei16 & a0);
const Ei16 & tr_ei16(const Ei16 & a0);
Ei16 & tm_ei16(Ei16 & a0);
void r_eu64(const Eu64 & a0, const Eu64 & a1);
void m_eu64(Eu64 & a0, uint16_t a1);
const Eu64 & rr_eu64(const Eu64 & a0);
Eu64 & mm_eu64(Eu64 & a0);
const Eu64 & tr_eu64(const Eu64 & a0);
Eu64 & tm_eu64(Eu64 & a0);
void r_t1(const T1 & a0, const T1 & a1);
void m_t1(T1 & a0, uint16_t a1);
const T1 & rr_t1(const T1 & a0);
T1 & mm_t1(T1 & a0);
const T1 & tr_t1(const T1 & a0);
T1 & tm_t1(T1 & a0);
void r_t3(const T3 & a0, const T3 & a1);
void m_t3(T3 & a0, uint16_t a1);
const T3 & rr_t3(const T3 & a0);
T3 & mm_t3(T3 & a0);
const T3 & tr_t3(const T3 & a0);
T3 & tm_t3(T3 & a0);
void r_tx(const Tx & a0, const Tx & a1);
void m_tx(Tx & a0, uint16_t a1);
const Tx & rr_tx(const Tx & a0);
Tx & mm_tx(Tx & a0);
const Tx & tr_tx(const Tx & a0);
Tx & tm_tx(Tx & a0);
void r_arr5(const std::array<uint8_t, 5> & a0, const std::array<uint8_t, 5> & a1);
void m_arr5(std::array<uint8_t, 5> & a0, uint16_t a1);
const std::array<uint8_t, 5> & rr_arr5(const std::array<uint8_t, 5> & a0);
std::array<uint8_t, 5> & mm_arr5(std::array<uint8_t, 5> & a0);
const std::array<uint8_t, 5> & tr_arr5(const std::array<uint8_t, 5> & a0);
std::array<uint8_t, 5> & tm_arr5(std::array<uint8_t, 5> & a0);
void r_arrs(const std::array<rust::String, 2> & a0, const std::array<rust::String, 2> & a1);
void m_arrs(std::array<rust::String, 2> & a0, uint16_t a1);
const std::array<rust::String, 2> & rr_arrs(const std::array<rust::String, 2> & a0);
std::array<rust::String, 2> & mm_arrs(std::array<rust::String, 2> & a0);
const std::array<rust::String, 2> & tr_arrs(const std::array<rust::String, 2> & a0);
std::array<rust::String, 2> & tm_arrs(std::array<rust::String, 2> & a0);
void r_r(const R & a0, const R & a1);
void m_r(R & a0, uint16_t a1);
const R & rr_r(const R & a0);
R & mm_r(R & a0);
const R & tr_r(const R & a0);
R & tm_r(R & a0);
void r_c(const C & a0, const C & a1);
void m_c(C & a0, uint16_t a1);
const C & rr_c(const C & a0);
C & mm_c(C & a0);
const C & tr_c(const C & a0);
C & tm_c(C & a0);
void r_cxxstring(const std::string & a0, const std::string & a1);
void m_cxxstring(std::string & a0, uint16_t a1);
const std::string & rr_cxxstring(const std::string & a0);
std::string & mm_cxxstring(std::string & a0);
const std::string & tr_cxxstring(const std::string & a0);
std::string & tm_cxxstring(std::string & a0);
void r_cxxvector(const std::vector<uint32_t> & a0, const std::vector<uint32_t> & a1);
void m_cxxvector(std::vector<uint32_t> & a0, uint16_t a1);
const std::vector<uint32_t> & rr_cxxvector(const std::vector<uint32_t> & a0);
std::vector<uint32_t> & mm_cxxvector(std::vector<uint32_t> & a0);
const std::vector<uint32_t> & tr_cxxvector(const std::vector<uint32_t> & a0);
std::vector<uint32_t> & tm_cxxvector(std::vector<uint32_t> & a0);
void r_cxxvectorn(const std::vector<N> & a0, const std::vector<N> & a1);
void m_cxxvectorn(std::vector<N> & a0, uint16_t a1);
const std::vector<N> & rr_cxxvectorn(const std::vector<N> & a0);
std::vector<N> & mm_cxxvectorn(std::vector<N> & a0);
const std::vector<N> & tr_cxxvectorn(const std::vector<N> & a0);
std::vector<N> & tm_cxxvectorn(std::vector<N> & a0);
void s_u8(rust::Slice<const uint8_t> a0, uint32_t a1, rust::Slice<const uint8_t> a2);
void sm_u8(rust::Slice<uint8_t> a0);
rust::Slice<const uint8_t> ss_u8(rust::Slice<const uint8_t> a0);
rust::Slice<uint8_t> sms_u8(rust::Slice<uint8_t> a0);
rust::Slice<const uint8_t> ts_u8(rust::Slice<const uint8_t> a0);
rust::Slice<uint8_t> tsm_u8(rust::Slice<uint8_t> a0);
void s_f64(rust::Slice<const double> a0, uint32_t a1, rust::Slice<const double> a2);
void sm_f64(rust::Slice<double> a0);
rust::Slice<const double> ss_f64(rust::Slice<const double> a0);
rust::Slice<double> sms_f64(rust::Slice<double> a0);
rust::Slice<const double> ts_f64(rust::Slice<const double> a0);
rust::Slice<double> tsm_f64(rust::Slice<double> a0);
void s_p2(rust::Slice<const P2> a0, uint32_t a1, rust::Slice<const P2> a2);
void sm_p2(rust::Slice<P2> a0);
rust::Slice<const P2> ss_p2(rust::Slice<const P2> a0);
rust::Slice<P2> sms_p2(rust::Slice<P2> a0);
rust::Slice<const P2> ts_p2(rust::Slice<const P2> a0);
rust::Slice<P2> tsm_p2(rust::Slice<P2> a0);
void s_n(rust::Slice<const N> a0, uint32_t a1, rust::Slice<const N> a2);
void sm_n(rust::Slice<N> a0);
rust::Slice<const N> ss_n(rust::Slice<const N> a0);
rust::Slice<N> sms_n(rust::Slice<N> a0);
rust::Slice<const N> ts_n(rust::Slice<const N> a0);
rust::Slice<N> tsm_n(rust::Slice<N> a0);
void s_string(rust::Slice<const rust::String> a0, uint32_t a1, rust::Slice<const rust::String> a2);
void sm_string(rust::Slice<rust::String> a0);
rust::Slice<const rust::String> ss_string(rust::Slice<const rust::String> a0);
rust::Slice<rust::String> sms_string(rust::Slice<rust::String> a0);
rust::Slice<const rust::String> ts_string(rust::Slice<const rust::String> a0);
rust::Slice<rust::String> tsm_string(rust::Slice<rust::String> a0);
void s_r(rust::Slice<const R> a0, uint32_t a1, rust::Slice<const R> a2);
void sm_r(rust::Slice<R> a0);
rust::Slice<const R> ss_r(rust::Slice<const R> a0);
rust::Slice<R> sms_r(rust::Slice<R> a0);
rust::Slice<const R> ts_r(rust::Slice<const R> a0);
rust::Slice<R> tsm_r(rust::Slice<R> a0);
void s_uobj(rust::Slice<const std::unique_ptr<C>> a0, uint32_t a1, rust::Slice<const std::unique_ptr<C>> a2);
void sm_uobj(rust::Slice<std::unique_ptr<C>> a0);
rust::Slice<const std::unique_ptr<C>> ss_uobj(rust::Slice<const std::unique_ptr<C>> a0);
rust::Slice<std::unique_ptr<C>> sms_uobj(rust::Slice<std::unique_ptr<C>> a0);
rust::Slice<const std::unique_ptr<C>> ts_uobj(rust::Slice<const std::unique_ptr<C>> a0);
rust::Slice<std::unique_ptr<C>> tsm_uobj(rust::Slice<std::unique_ptr<C>> a0);
void s_en(rust::Slice<const En> a0, uint32_t a1, rust::Slice<const En> a2);
void sm_en(rust::Slice<En> a0);
rust::Slice<const En> ss_en(rust::Slice<const En> a0);
rust::Slice<En> sms_en(rust::Slice<En> a0);
rust::Slice<const En> ts_en(rust::Slice<const En> a0);
rust::Slice<En> tsm_en(rust::Slice<En> a0);
void s_t3(rust::Slice<const T3> a0, uint32_t a1, rust::Slice<const T3> a2);
void sm_t3(rust::Slice<T3> a0);
rust::Slice<const T3> ss_t3(rust::Slice<const T3> a0);
rust::Slice<T3> sms_t3(rust::Slice<T3> a0);
rust::Slice<const T3> ts_t3(rust::Slice<const T3> a0);
rust::Slice<T3> tsm_t3(rust::Slice<T3> a0);
const uint8_t * p_u8(const uint8_t * a0, uint8_t * a1);
uint8_t * pm_u8(uint8_t * a0, const uint8_t * a1);
const uint8_t * tp_u8(const uint8_t * a0);
uint8_t * tpm_u8(uint8_t * a0);
const P2 * p_p2(const P2 * a0, P2 * a1);
P2 * pm_p2(P2 * a0, const P2 * a1);
const P2 * tp_p2(const P2 * a0);
P2 * tpm_p2(P2 * a0);
const N * p_n(const N * a0, N * a1);
N * pm_n(N * a0, const N * a1);
const N * tp_n(const N * a0);
N * tpm_n(N * a0);
const C * p_c(const C * a0, C * a1);
C * pm_c(C * a0, const C * a1);
const C * tp_c(const C * a0);
C * tpm_c(C * a0);
const R * p_r(const R * a0, R * a1);
R * pm_r(R * a0, const R * a1);
const R * tp_r(const R * a0);
R * tpm_r(R * a0);
const rust::String * p_string(const rust::String * a0, rust::String * a1);
rust::String * pm_string(rust::String * a0, const rust::String * a1);
const rust::String * tp_string(const rust::String * a0);
rust::String * tpm_string(rust::String * a0);
const rust::Vec<uint8_t> * p_vu8(const rust::Vec<uint8_t> * a0, rust::Vec<uint8_t> * a1);
rust::Vec<uint8_t> * pm_vu8(rust::Vec<uint8_t> * a0, const rust::Vec<uint8_t> * a1);
const rust::Vec<uint8_t> * tp_vu8(const rust::Vec<uint8_t> * a0);
rust::Vec<uint8_t> * tpm_vu8(rust::Vec<uint8_t> * a0);
void st(rust::Str a0, bool a1, rust::Str a2);
rust::Str sst(rust::Str a0);
rust::Str tst(rust::Str a0);
void u();
void tu();
uint8_t mix0(uint8_t a0, rust::String a1, float a2, P2 a3, std::unique_ptr<C> a4, uint64_t a5, rust::Vec<rust::String> a6, double a7, En a8, N a9, int16_t a10, Q3 a11);
Q3 tmix0(uint8_t a0, rust::String a1, float a2, P2 a3, std::unique_ptr<C> a4, uint64_t a5, rust::Vec<rust::String> a6, double a7, En a8, N a9, int16_t a10, Q3 a11);
double mix1(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, double a8, double a9);
double tmix1(double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, double a8, double a9);
uint64_t mix2(uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t a4, uint64_t a5, uint64_t a6, uint64_t a7, uint64_t a8);
uint64_t tmix2(uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t a4, uint64_t a5, uint64_t a6, uint64_t a7, uint64_t a8);
bool mix3(bool a0, uint8_t a1, bool a2, int8_t a3, char a4, uint16_t a5, int16_t a6, bool a7);
bool tmix3(bool a0, uint8_t a1, bool a2, int8_t a3, char a4, uint16_t a5, int16_t a6, bool a7);
F2 mix4(F2 a0, FI a1, Q2 a2, D4 a3, P1 a4, float a5, Q2 a6, Q2 a7, uint8_t a8);
uint8_t tmix4(F2 a0, FI a1, Q2 a2, D4 a3, P1 a4, float a5, Q2 a6, Q2 a7, uint8_t a8);
N mix5(N a0, N a1, rust::String a2, rust::String a3, rust::Box<R> a4, rust::Box<R> a5, std::shared_ptr<C> a6, std::weak_ptr<C> a7);
std::weak_ptr<C> tmix5(N a0, N a1, rust::String a2, rust::String a3, rust::Box<R> a4, rust::Box<R> a5, std::shared_ptr<C> a6, std::weak_ptr<C> a7);
T1 mix6(T1 a0, T3 a1, Tx a2, T1 a3, uint32_t a4, T3 a5);
T3 tmix6(T1 a0, T3 a1, Tx a2, T1 a3, uint32_t a4, T3 a5);
rust::Vec<N> mixr(const N & a0, N a1, rust::String & a2, rust::Str a3, rust::Slice<const uint8_t> a4, C & a5, std::unique_ptr<C> a6);
F2 tmixr(N & a0, rust::Str a1, rust::String a2, const rust::String & a3, rust::Slice<P2> a4);
