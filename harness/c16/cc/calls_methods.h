#pragma once
#define METHODS_C
#include "calls_types.h"
enum class Eext : uint16_t { A = 3, B = 900 };
struct Refs; size_t look(const Refs &s); Refs give(Refs s); void touch(Refs &s, uint64_t v);
struct S0; size_t size_0(); size_t align_0(); size_t off_0(size_t i); void get_0(const S0 &s, size_t i); void put_0(S0 &s, size_t i, uint64_t v, size_t k); S0 mov_0(S0 s); void eat_0(S0 s); S0 copy_0(const S0 &s); void assign_0(S0 &s, const S0 &t); std::unique_ptr<S0> dfl_0();
struct S1; size_t size_1(); size_t align_1(); size_t off_1(size_t i); void get_1(const S1 &s, size_t i); void put_1(S1 &s, size_t i, uint64_t v, size_t k); S1 mov_1(S1 s); void eat_1(S1 s); S1 copy_1(const S1 &s); void assign_1(S1 &s, const S1 &t); std::unique_ptr<S1> dfl_1();
struct S2; size_t size_2(); size_t align_2(); size_t off_2(size_t i); void get_2(const S2 &s, size_t i); void put_2(S2 &s, size_t i, uint64_t v, size_t k); S2 mov_2(S2 s); void eat_2(S2 s); S2 copy_2(const S2 &s); void assign_2(S2 &s, const S2 &t); std::unique_ptr<S2> dfl_2();
struct S3; size_t size_3(); size_t align_3(); size_t off_3(size_t i); void get_3(const S3 &s, size_t i); void put_3(S3 &s, size_t i, uint64_t v, size_t k); S3 mov_3(S3 s); void eat_3(S3 s); S3 copy_3(const S3 &s); void assign_3(S3 &s, const S3 &t); std::unique_ptr<S3> dfl_3();
struct S4; size_t size_4(); size_t align_4(); size_t off_4(size_t i); void get_4(const S4 &s, size_t i); void put_4(S4 &s, size_t i, uint64_t v, size_t k); S4 mov_4(S4 s); void eat_4(S4 s); S4 copy_4(const S4 &s); void assign_4(S4 &s, const S4 &t); std::unique_ptr<S4> dfl_4();
struct S5; size_t size_5(); size_t align_5(); size_t off_5(size_t i); void get_5(const S5 &s, size_t i); void put_5(S5 &s, size_t i, uint64_t v, size_t k); S5 mov_5(S5 s); void eat_5(S5 s); S5 copy_5(const S5 &s); void assign_5(S5 &s, const S5 &t); std::unique_ptr<S5> dfl_5();
struct S6; size_t size_6(); size_t align_6(); size_t off_6(size_t i); void get_6(const S6 &s, size_t i); void put_6(S6 &s, size_t i, uint64_t v, size_t k); S6 mov_6(S6 s); void eat_6(S6 s); S6 copy_6(const S6 &s); void assign_6(S6 &s, const S6 &t); std::unique_ptr<S6> dfl_6();
struct S7; size_t size_7(); size_t align_7(); size_t off_7(size_t i); void get_7(const S7 &s, size_t i); void put_7(S7 &s, size_t i, uint64_t v, size_t k); S7 mov_7(S7 s); void eat_7(S7 s); S7 copy_7(const S7 &s); void assign_7(S7 &s, const S7 &t); std::unique_ptr<S7> dfl_7();
struct S8; size_t size_8(); size_t align_8(); size_t off_8(size_t i); void get_8(const S8 &s, size_t i); void put_8(S8 &s, size_t i, uint64_t v, size_t k); S8 mov_8(S8 s); void eat_8(S8 s); S8 copy_8(const S8 &s); void assign_8(S8 &s, const S8 &t); std::unique_ptr<S8> dfl_8();
struct S9; size_t size_9(); size_t align_9(); size_t off_9(size_t i); void get_9(const S9 &s, size_t i); void put_9(S9 &s, size_t i, uint64_t v, size_t k); S9 mov_9(S9 s); void eat_9(S9 s); S9 copy_9(const S9 &s); void assign_9(S9 &s, const S9 &t); std::unique_ptr<S9> dfl_9();
struct S10; size_t size_10(); size_t align_10(); size_t off_10(size_t i); void get_10(const S10 &s, size_t i); void put_10(S10 &s, size_t i, uint64_t v, size_t k); S10 mov_10(S10 s); void eat_10(S10 s); S10 copy_10(const S10 &s); void assign_10(S10 &s, const S10 &t); std::unique_ptr<S10> dfl_10();
struct S11; size_t size_11(); size_t align_11(); size_t off_11(size_t i); void get_11(const S11 &s, size_t i); void put_11(S11 &s, size_t i, uint64_t v, size_t k); S11 mov_11(S11 s); void eat_11(S11 s); S11 copy_11(const S11 &s); void assign_11(S11 &s, const S11 &t); std::unique_ptr<S11> dfl_11();
struct S12; size_t size_12(); size_t align_12(); size_t off_12(size_t i); void get_12(const S12 &s, size_t i); void put_12(S12 &s, size_t i, uint64_t v, size_t k); S12 mov_12(S12 s); void eat_12(S12 s); S12 copy_12(const S12 &s); void assign_12(S12 &s, const S12 &t); std::unique_ptr<S12> dfl_12();
struct S13; size_t size_13(); size_t align_13(); size_t off_13(size_t i); void get_13(const S13 &s, size_t i); void put_13(S13 &s, size_t i, uint64_t v, size_t k); S13 mov_13(S13 s); void eat_13(S13 s); S13 copy_13(const S13 &s); void assign_13(S13 &s, const S13 &t); std::unique_ptr<S13> dfl_13();
struct S14; size_t size_14(); size_t align_14(); size_t off_14(size_t i); void get_14(const S14 &s, size_t i); void put_14(S14 &s, size_t i, uint64_t v, size_t k); S14 mov_14(S14 s); void eat_14(S14 s); S14 copy_14(const S14 &s); void assign_14(S14 &s, const S14 &t); std::unique_ptr<S14> dfl_14();
struct S15; size_t size_15(); size_t align_15(); size_t off_15(size_t i); void get_15(const S15 &s, size_t i); void put_15(S15 &s, size_t i, uint64_t v, size_t k); S15 mov_15(S15 s); void eat_15(S15 s); S15 copy_15(const S15 &s); void assign_15(S15 &s, const S15 &t); std::unique_ptr<S15> dfl_15();
struct S16; size_t size_16(); size_t align_16(); size_t off_16(size_t i); void get_16(const S16 &s, size_t i); void put_16(S16 &s, size_t i, uint64_t v, size_t k); S16 mov_16(S16 s); void eat_16(S16 s); S16 copy_16(const S16 &s); void assign_16(S16 &s, const S16 &t); std::unique_ptr<S16> dfl_16();
struct S17; size_t size_17(); size_t align_17(); size_t off_17(size_t i); void get_17(const S17 &s, size_t i); void put_17(S17 &s, size_t i, uint64_t v, size_t k); S17 mov_17(S17 s); void eat_17(S17 s); S17 copy_17(const S17 &s); void assign_17(S17 &s, const S17 &t); std::unique_ptr<S17> dfl_17();
struct S18; size_t size_18(); size_t align_18(); size_t off_18(size_t i); void get_18(const S18 &s, size_t i); void put_18(S18 &s, size_t i, uint64_t v, size_t k); S18 mov_18(S18 s); void eat_18(S18 s); S18 copy_18(const S18 &s); void assign_18(S18 &s, const S18 &t); std::unique_ptr<S18> dfl_18();
struct S19; size_t size_19(); size_t align_19(); size_t off_19(size_t i); void get_19(const S19 &s, size_t i); void put_19(S19 &s, size_t i, uint64_t v, size_t k); S19 mov_19(S19 s); void eat_19(S19 s); S19 copy_19(const S19 &s); void assign_19(S19 &s, const S19 &t); std::unique_ptr<S19> dfl_19();
struct S20; size_t size_20(); size_t align_20(); size_t off_20(size_t i); void get_20(const S20 &s, size_t i); void put_20(S20 &s, size_t i, uint64_t v, size_t k); S20 mov_20(S20 s); void eat_20(S20 s); S20 copy_20(const S20 &s); void assign_20(S20 &s, const S20 &t); std::unique_ptr<S20> dfl_20();
struct S21; size_t size_21(); size_t align_21(); size_t off_21(size_t i); void get_21(const S21 &s, size_t i); void put_21(S21 &s, size_t i, uint64_t v, size_t k); S21 mov_21(S21 s); void eat_21(S21 s); S21 copy_21(const S21 &s); void assign_21(S21 &s, const S21 &t); std::unique_ptr<S21> dfl_21();
struct S22; size_t size_22(); size_t align_22(); size_t off_22(size_t i); void get_22(const S22 &s, size_t i); void put_22(S22 &s, size_t i, uint64_t v, size_t k); S22 mov_22(S22 s); void eat_22(S22 s); S22 copy_22(const S22 &s); void assign_22(S22 &s, const S22 &t); std::unique_ptr<S22> dfl_22();
enum class Eu8 : uint8_t; struct Hold_Eu8; Eu8 echo_Eu8(Eu8 e); uint64_t num_Eu8(Eu8 e); Eu8 variant_Eu8(size_t i); size_t which_Eu8(Eu8 e); size_t esize_Eu8(); Eu8 in_Eu8(Hold_Eu8 &e);
enum class Ei8 : int8_t; struct Hold_Ei8; Ei8 echo_Ei8(Ei8 e); uint64_t num_Ei8(Ei8 e); Ei8 variant_Ei8(size_t i); size_t which_Ei8(Ei8 e); size_t esize_Ei8(); Ei8 in_Ei8(Hold_Ei8 &e);
enum class Eu16 : uint16_t; struct Hold_Eu16; Eu16 echo_Eu16(Eu16 e); uint64_t num_Eu16(Eu16 e); Eu16 variant_Eu16(size_t i); size_t which_Eu16(Eu16 e); size_t esize_Eu16(); Eu16 in_Eu16(Hold_Eu16 &e);
enum class Eii16 : int16_t; struct Hold_Eii16; Eii16 echo_Eii16(Eii16 e); uint64_t num_Eii16(Eii16 e); Eii16 variant_Eii16(size_t i); size_t which_Eii16(Eii16 e); size_t esize_Eii16(); Eii16 in_Eii16(Hold_Eii16 &e);
enum class Eu32 : uint32_t; struct Hold_Eu32; Eu32 echo_Eu32(Eu32 e); uint64_t num_Eu32(Eu32 e); Eu32 variant_Eu32(size_t i); size_t which_Eu32(Eu32 e); size_t esize_Eu32(); Eu32 in_Eu32(Hold_Eu32 &e);
enum class Ei32 : int32_t; struct Hold_Ei32; Ei32 echo_Ei32(Ei32 e); uint64_t num_Ei32(Ei32 e); Ei32 variant_Ei32(size_t i); size_t which_Ei32(Ei32 e); size_t esize_Ei32(); Ei32 in_Ei32(Hold_Ei32 &e);
enum class Euu64 : uint64_t; struct Hold_Euu64; Euu64 echo_Euu64(Euu64 e); uint64_t num_Euu64(Euu64 e); Euu64 variant_Euu64(size_t i); size_t which_Euu64(Euu64 e); size_t esize_Euu64(); Euu64 in_Euu64(Hold_Euu64 &e);
enum class Ei64 : int64_t; struct Hold_Ei64; Ei64 echo_Ei64(Ei64 e); uint64_t num_Ei64(Ei64 e); Ei64 variant_Ei64(size_t i); size_t which_Ei64(Ei64 e); size_t esize_Ei64(); Ei64 in_Ei64(Hold_Ei64 &e);
enum class Eusize : size_t; struct Hold_Eusize; Eusize echo_Eusize(Eusize e); uint64_t num_Eusize(Eusize e); Eusize variant_Eusize(size_t i); size_t which_Eusize(Eusize e); size_t esize_Eusize(); Eusize in_Eusize(Hold_Eusize &e);
enum class Eisize : rust::isize; struct Hold_Eisize; Eisize echo_Eisize(Eisize e); uint64_t num_Eisize(Eisize e); Eisize variant_Eisize(size_t i); size_t which_Eisize(Eisize e); size_t esize_Eisize(); Eisize in_Eisize(Hold_Eisize &e);
enum class Eimp : uint8_t; struct Hold_Eimp; Eimp echo_Eimp(Eimp e); uint64_t num_Eimp(Eimp e); Eimp variant_Eimp(size_t i); size_t which_Eimp(Eimp e); size_t esize_Eimp(); Eimp in_Eimp(Hold_Eimp &e);
enum class Einf : uint16_t; struct Hold_Einf; Einf echo_Einf(Einf e); uint64_t num_Einf(Einf e); Einf variant_Einf(size_t i); size_t which_Einf(Einf e); size_t esize_Einf(); Einf in_Einf(Hold_Einf &e);
enum class Eneg : int8_t; struct Hold_Eneg; Eneg echo_Eneg(Eneg e); uint64_t num_Eneg(Eneg e); Eneg variant_Eneg(size_t i); size_t which_Eneg(Eneg e); size_t esize_Eneg(); Eneg in_Eneg(Hold_Eneg &e);
enum class Ebig : uint32_t; struct Hold_Ebig; Ebig echo_Ebig(Ebig e); uint64_t num_Ebig(Ebig e); Ebig variant_Ebig(size_t i); size_t which_Ebig(Ebig e); size_t esize_Ebig(); Ebig in_Ebig(Hold_Ebig &e);
enum class Eext : uint16_t; struct Hold_Eext; Eext echo_Eext(Eext e); uint64_t num_Eext(Eext e); Eext variant_Eext(size_t i); size_t which_Eext(Eext e); size_t esize_Eext(); Eext in_Eext(Hold_Eext &e);
struct Grid; enum class En : uint8_t; size_t grid_size(); size_t grid_off(size_t i); uint16_t grid_m(const Grid &g, size_t i, size_t j); uint8_t grid_t(const Grid &g, size_t i, size_t j, size_t k); En grid_e(const Grid &g, size_t i); void grid_put_m(Grid &g, size_t i, size_t j, uint16_t v); void grid_put_t(Grid &g, size_t i, size_t j, size_t k, uint8_t v); Grid grid_copy(Grid g);
