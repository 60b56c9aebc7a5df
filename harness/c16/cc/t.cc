#include "lib.rs.h"
#include "calls.h"
template <class T> struct Val<T *> { static T *mk(uint64_t v, size_t) { return (T *)v; } static void ser(T *const &t) { push((uint64_t)t); } };
size_t size_0() { return sizeof(S0); } size_t align_0() { return alignof(S0); }
size_t off_0(size_t i) { switch (i) { case 0: return offsetof(S0, f0); case 1: return offsetof(S0, f1); case 2: return offsetof(S0, f2); case 3: return offsetof(S0, f3); case 4: return offsetof(S0, f4); case 5: return offsetof(S0, f5); } return 0; }
void get_0(const S0 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; } }
void put_0(S0 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<bool>::mk(v, k); break; case 1: s.f1 = Val<char>::mk(v, k); break; case 2: s.f2 = Val<uint8_t>::mk(v, k); break; case 3: s.f3 = Val<uint16_t>::mk(v, k); break; case 4: s.f4 = Val<uint32_t>::mk(v, k); break; case 5: s.f5 = Val<uint64_t>::mk(v, k); break; } }
S0 mov_0(S0 s) { S0 t(std::move(s)); return t; } void eat_0(S0 s) { S0 t = std::move(s); }
S0 copy_0(const S0 &s) { S0 t(s); return t; } void assign_0(S0 &s, const S0 &t) { s = t; }
std::unique_ptr<S0> dfl_0() { void *p = ::operator new(sizeof(S0)); memset(p, 0x5a, sizeof(S0)); return std::unique_ptr<S0>(new (p) S0{}); }
size_t size_1() { return sizeof(S1); } size_t align_1() { return alignof(S1); }
size_t off_1(size_t i) { switch (i) { case 0: return offsetof(S1, f0); case 1: return offsetof(S1, f1); case 2: return offsetof(S1, f2); case 3: return offsetof(S1, f3); case 4: return offsetof(S1, f4); case 5: return offsetof(S1, f5); } return 0; }
void get_1(const S1 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; } }
void put_1(S1 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<size_t>::mk(v, k); break; case 1: s.f1 = Val<int8_t>::mk(v, k); break; case 2: s.f2 = Val<int16_t>::mk(v, k); break; case 3: s.f3 = Val<int32_t>::mk(v, k); break; case 4: s.f4 = Val<int64_t>::mk(v, k); break; case 5: s.f5 = Val<rust::isize>::mk(v, k); break; } }
S1 mov_1(S1 s) { S1 t(std::move(s)); return t; } void eat_1(S1 s) { S1 t = std::move(s); }
S1 copy_1(const S1 &s) { S1 t(s); return t; } void assign_1(S1 &s, const S1 &t) { s = t; }
std::unique_ptr<S1> dfl_1() { void *p = ::operator new(sizeof(S1)); memset(p, 0x5a, sizeof(S1)); return std::unique_ptr<S1>(new (p) S1{}); }
size_t size_2() { return sizeof(S2); } size_t align_2() { return alignof(S2); }
size_t off_2(size_t i) { switch (i) { case 0: return offsetof(S2, f0); case 1: return offsetof(S2, f1); case 2: return offsetof(S2, f2); case 3: return offsetof(S2, f3); case 4: return offsetof(S2, f4); case 5: return offsetof(S2, f5); } return 0; }
void get_2(const S2 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; } }
void put_2(S2 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<float>::mk(v, k); break; case 1: s.f1 = Val<double>::mk(v, k); break; case 2: s.f2 = Val<rust::String>::mk(v, k); break; case 3: s.f3 = Val<rust::Box<R>>::mk(v, k); break; case 4: s.f4 = Val<rust::Box<N>>::mk(v, k); break; case 5: s.f5 = Val<rust::Vec<uint8_t>>::mk(v, k); break; } }
S2 mov_2(S2 s) { S2 t(std::move(s)); return t; } void eat_2(S2 s) { S2 t = std::move(s); }
size_t size_3() { return sizeof(S3); } size_t align_3() { return alignof(S3); }
size_t off_3(size_t i) { switch (i) { case 0: return offsetof(S3, f0); case 1: return offsetof(S3, f1); case 2: return offsetof(S3, f2); case 3: return offsetof(S3, f3); case 4: return offsetof(S3, f4); case 5: return offsetof(S3, f5); } return 0; }
void get_3(const S3 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; } }
void put_3(S3 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<rust::Vec<bool>>::mk(v, k); break; case 1: s.f1 = Val<rust::Vec<double>>::mk(v, k); break; case 2: s.f2 = Val<rust::Vec<rust::String>>::mk(v, k); break; case 3: s.f3 = Val<rust::Vec<P2>>::mk(v, k); break; case 4: s.f4 = Val<rust::Vec<N>>::mk(v, k); break; case 5: s.f5 = Val<rust::Vec<R>>::mk(v, k); break; } }
S3 mov_3(S3 s) { S3 t(std::move(s)); return t; } void eat_3(S3 s) { S3 t = std::move(s); }
std::unique_ptr<S3> dfl_3() { void *p = ::operator new(sizeof(S3)); memset(p, 0x5a, sizeof(S3)); return std::unique_ptr<S3>(new (p) S3{}); }
size_t size_4() { return sizeof(S4); } size_t align_4() { return alignof(S4); }
size_t off_4(size_t i) { switch (i) { case 0: return offsetof(S4, f0); case 1: return offsetof(S4, f1); case 2: return offsetof(S4, f2); case 3: return offsetof(S4, f3); case 4: return offsetof(S4, f4); case 5: return offsetof(S4, f5); } return 0; }
void get_4(const S4 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; } }
void put_4(S4 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<std::unique_ptr<C>>::mk(v, k); break; case 1: s.f1 = Val<std::unique_ptr<std::string>>::mk(v, k); break; case 2: s.f2 = Val<std::unique_ptr<std::vector<uint32_t>>>::mk(v, k); break; case 3: s.f3 = Val<std::unique_ptr<N>>::mk(v, k); break; case 4: s.f4 = Val<std::shared_ptr<C>>::mk(v, k); break; case 5: s.f5 = Val<std::shared_ptr<uint64_t>>::mk(v, k); break; } }
S4 mov_4(S4 s) { S4 t(std::move(s)); return t; } void eat_4(S4 s) { S4 t = std::move(s); }
std::unique_ptr<S4> dfl_4() { void *p = ::operator new(sizeof(S4)); memset(p, 0x5a, sizeof(S4)); return std::unique_ptr<S4>(new (p) S4{}); }
size_t size_5() { return sizeof(S5); } size_t align_5() { return alignof(S5); }
size_t off_5(size_t i) { switch (i) { case 0: return offsetof(S5, f0); case 1: return offsetof(S5, f1); case 2: return offsetof(S5, f2); case 3: return offsetof(S5, f3); case 4: return offsetof(S5, f4); case 5: return offsetof(S5, f5); } return 0; }
void get_5(const S5 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; } }
void put_5(S5 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<std::weak_ptr<C>>::mk(v, k); break; case 1: s.f1 = Val<P1>::mk(v, k); break; case 2: s.f2 = Val<P2>::mk(v, k); break; case 3: s.f3 = Val<F2>::mk(v, k); break; case 4: s.f4 = Val<FI>::mk(v, k); break; case 5: s.f5 = Val<Q2>::mk(v, k); break; } }
S5 mov_5(S5 s) { S5 t(std::move(s)); return t; } void eat_5(S5 s) { S5 t = std::move(s); }
S5 copy_5(const S5 &s) { S5 t(s); return t; } void assign_5(S5 &s, const S5 &t) { s = t; }
std::unique_ptr<S5> dfl_5() { void *p = ::operator new(sizeof(S5)); memset(p, 0x5a, sizeof(S5)); return std::unique_ptr<S5>(new (p) S5{}); }
size_t size_6() { return sizeof(S6); } size_t align_6() { return alignof(S6); }
size_t off_6(size_t i) { switch (i) { case 0: return offsetof(S6, f0); case 1: return offsetof(S6, f1); case 2: return offsetof(S6, f2); case 3: return offsetof(S6, f3); case 4: return offsetof(S6, f4); case 5: return offsetof(S6, f5); } return 0; }
void get_6(const S6 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; } }
void put_6(S6 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<Q3>::mk(v, k); break; case 1: s.f1 = Val<D4>::mk(v, k); break; case 2: s.f2 = Val<N>::mk(v, k); break; case 3: s.f3 = Val<Ar>::mk(v, k); break; case 4: s.f4 = Val<Nest>::mk(v, k); break; case 5: s.f5 = Val<En>::mk(v, k); break; } }
S6 mov_6(S6 s) { S6 t(std::move(s)); return t; } void eat_6(S6 s) { S6 t = std::move(s); }
S6 copy_6(const S6 &s) { S6 t(s); return t; } void assign_6(S6 &s, const S6 &t) { s = t; }
size_t size_7() { return sizeof(S7); } size_t align_7() { return alignof(S7); }
size_t off_7(size_t i) { switch (i) { case 0: return offsetof(S7, f0); case 1: return offsetof(S7, f1); case 2: return offsetof(S7, f2); case 3: return offsetof(S7, f3); case 4: return offsetof(S7, f4); case 5: return offsetof(S7, f5); } return 0; }
void get_7(const S7 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; } }
void put_7(S7 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<Ei16>::mk(v, k); break; case 1: s.f1 = Val<Eu64>::mk(v, k); break; case 2: s.f2 = Val<T1>::mk(v, k); break; case 3: s.f3 = Val<T3>::mk(v, k); break; case 4: s.f4 = Val<Tx>::mk(v, k); break; case 5: s.f5 = Val<std::array<uint8_t, 5>>::mk(v, k); break; } }
S7 mov_7(S7 s) { S7 t(std::move(s)); return t; } void eat_7(S7 s) { S7 t = std::move(s); }
S7 copy_7(const S7 &s) { S7 t(s); return t; } void assign_7(S7 &s, const S7 &t) { s = t; }
size_t size_8() { return sizeof(S8); } size_t align_8() { return alignof(S8); }
size_t off_8(size_t i) { switch (i) { case 0: return offsetof(S8, f0); case 1: return offsetof(S8, f1); case 2: return offsetof(S8, f2); case 3: return offsetof(S8, f3); case 4: return offsetof(S8, f4); case 5: return offsetof(S8, f5); } return 0; }
void get_8(const S8 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; } }
void put_8(S8 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<std::array<rust::String, 2>>::mk(v, k); break; case 1: s.f1 = Val<const uint8_t *>::mk(v, k); break; case 2: s.f2 = Val<N *>::mk(v, k); break; case 3: s.f3 = Val<bool>::mk(v, k); break; case 4: s.f4 = Val<char>::mk(v, k); break; case 5: s.f5 = Val<uint8_t>::mk(v, k); break; } }
S8 mov_8(S8 s) { S8 t(std::move(s)); return t; } void eat_8(S8 s) { S8 t = std::move(s); }
S8 copy_8(const S8 &s) { S8 t(s); return t; } void assign_8(S8 &s, const S8 &t) { s = t; }
std::unique_ptr<S8> dfl_8() { void *p = ::operator new(sizeof(S8)); memset(p, 0x5a, sizeof(S8)); return std::unique_ptr<S8>(new (p) S8{}); }
size_t size_9() { return sizeof(S9); } size_t align_9() { return alignof(S9); }
size_t off_9(size_t i) { switch (i) { case 0: return offsetof(S9, f0); case 1: return offsetof(S9, f1); case 2: return offsetof(S9, f2); case 3: return offsetof(S9, f3); case 4: return offsetof(S9, f4); case 5: return offsetof(S9, f5); case 6: return offsetof(S9, f6); case 7: return offsetof(S9, f7); case 8: return offsetof(S9, f8); } return 0; }
void get_9(const S9 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; case 6: log_(s.f6); break; case 7: log_(s.f7); break; case 8: log_(s.f8); break; } }
void put_9(S9 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<bool>::mk(v, k); break; case 1: s.f1 = Val<int8_t>::mk(v, k); break; case 2: s.f2 = Val<rust::String>::mk(v, k); break; case 3: s.f3 = Val<rust::Vec<P2>>::mk(v, k); break; case 4: s.f4 = Val<std::shared_ptr<C>>::mk(v, k); break; case 5: s.f5 = Val<Q2>::mk(v, k); break; case 6: s.f6 = Val<Ei16>::mk(v, k); break; case 7: s.f7 = Val<const uint8_t *>::mk(v, k); break; case 8: s.f8 = Val<uint64_t>::mk(v, k); break; } }
S9 mov_9(S9 s) { S9 t(std::move(s)); return t; } void eat_9(S9 s) { S9 t = std::move(s); }
S9 copy_9(const S9 &s) { S9 t(s); return t; } void assign_9(S9 &s, const S9 &t) { s = t; }
std::unique_ptr<S9> dfl_9() { void *p = ::operator new(sizeof(S9)); memset(p, 0x5a, sizeof(S9)); return std::unique_ptr<S9>(new (p) S9{}); }
size_t size_10() { return sizeof(S10); } size_t align_10() { return alignof(S10); }
size_t off_10(size_t i) { switch (i) { case 0: return offsetof(S10, f0); case 1: return offsetof(S10, f1); case 2: return offsetof(S10, f2); case 3: return offsetof(S10, f3); case 4: return offsetof(S10, f4); case 5: return offsetof(S10, f5); case 6: return offsetof(S10, f6); case 7: return offsetof(S10, f7); case 8: return offsetof(S10, f8); } return 0; }
void get_10(const S10 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; case 6: log_(s.f6); break; case 7: log_(s.f7); break; case 8: log_(s.f8); break; } }
void put_10(S10 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<uint16_t>::mk(v, k); break; case 1: s.f1 = Val<int64_t>::mk(v, k); break; case 2: s.f2 = Val<rust::Vec<uint8_t>>::mk(v, k); break; case 3: s.f3 = Val<std::unique_ptr<C>>::mk(v, k); break; case 4: s.f4 = Val<P1>::mk(v, k); break; case 5: s.f5 = Val<N>::mk(v, k); break; case 6: s.f6 = Val<T3>::mk(v, k); break; case 7: s.f7 = Val<char>::mk(v, k); break; case 8: s.f8 = Val<int16_t>::mk(v, k); break; } }
S10 mov_10(S10 s) { S10 t(std::move(s)); return t; } void eat_10(S10 s) { S10 t = std::move(s); }
std::unique_ptr<S10> dfl_10() { void *p = ::operator new(sizeof(S10)); memset(p, 0x5a, sizeof(S10)); return std::unique_ptr<S10>(new (p) S10{}); }
size_t size_11() { return sizeof(S11); } size_t align_11() { return alignof(S11); }
size_t off_11(size_t i) { switch (i) { case 0: return offsetof(S11, f0); case 1: return offsetof(S11, f1); case 2: return offsetof(S11, f2); case 3: return offsetof(S11, f3); case 4: return offsetof(S11, f4); case 5: return offsetof(S11, f5); case 6: return offsetof(S11, f6); case 7: return offsetof(S11, f7); case 8: return offsetof(S11, f8); } return 0; }
void get_11(const S11 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; case 6: log_(s.f6); break; case 7: log_(s.f7); break; case 8: log_(s.f8); break; } }
void put_11(S11 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<size_t>::mk(v, k); break; case 1: s.f1 = Val<double>::mk(v, k); break; case 2: s.f2 = Val<rust::Vec<rust::String>>::mk(v, k); break; case 3: s.f3 = Val<std::unique_ptr<N>>::mk(v, k); break; case 4: s.f4 = Val<FI>::mk(v, k); break; case 5: s.f5 = Val<En>::mk(v, k); break; case 6: s.f6 = Val<std::array<rust::String, 2>>::mk(v, k); break; case 7: s.f7 = Val<uint32_t>::mk(v, k); break; case 8: s.f8 = Val<rust::isize>::mk(v, k); break; } }
S11 mov_11(S11 s) { S11 t(std::move(s)); return t; } void eat_11(S11 s) { S11 t = std::move(s); }
std::unique_ptr<S11> dfl_11() { void *p = ::operator new(sizeof(S11)); memset(p, 0x5a, sizeof(S11)); return std::unique_ptr<S11>(new (p) S11{}); }
size_t size_12() { return sizeof(S12); } size_t align_12() { return alignof(S12); }
size_t off_12(size_t i) { switch (i) { case 0: return offsetof(S12, f0); case 1: return offsetof(S12, f1); case 2: return offsetof(S12, f2); case 3: return offsetof(S12, f3); case 4: return offsetof(S12, f4); case 5: return offsetof(S12, f5); case 6: return offsetof(S12, f6); case 7: return offsetof(S12, f7); case 8: return offsetof(S12, f8); } return 0; }
void get_12(const S12 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; case 6: log_(s.f6); break; case 7: log_(s.f7); break; case 8: log_(s.f8); break; } }
void put_12(S12 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<int32_t>::mk(v, k); break; case 1: s.f1 = Val<rust::Box<N>>::mk(v, k); break; case 2: s.f2 = Val<rust::Vec<R>>::mk(v, k); break; case 3: s.f3 = Val<std::weak_ptr<C>>::mk(v, k); break; case 4: s.f4 = Val<D4>::mk(v, k); break; case 5: s.f5 = Val<T1>::mk(v, k); break; case 6: s.f6 = Val<bool>::mk(v, k); break; case 7: s.f7 = Val<int8_t>::mk(v, k); break; case 8: s.f8 = Val<rust::String>::mk(v, k); break; } }
S12 mov_12(S12 s) { S12 t(std::move(s)); return t; } void eat_12(S12 s) { S12 t = std::move(s); }
size_t size_13() { return sizeof(S13); } size_t align_13() { return alignof(S13); }
size_t off_13(size_t i) { switch (i) { case 0: return offsetof(S13, f0); case 1: return offsetof(S13, f1); case 2: return offsetof(S13, f2); case 3: return offsetof(S13, f3); case 4: return offsetof(S13, f4); case 5: return offsetof(S13, f5); case 6: return offsetof(S13, f6); case 7: return offsetof(S13, f7); case 8: return offsetof(S13, f8); } return 0; }
void get_13(const S13 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; case 6: log_(s.f6); break; case 7: log_(s.f7); break; case 8: log_(s.f8); break; } }
void put_13(S13 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<float>::mk(v, k); break; case 1: s.f1 = Val<rust::Vec<double>>::mk(v, k); break; case 2: s.f2 = Val<std::unique_ptr<std::vector<uint32_t>>>::mk(v, k); break; case 3: s.f3 = Val<F2>::mk(v, k); break; case 4: s.f4 = Val<Nest>::mk(v, k); break; case 5: s.f5 = Val<std::array<uint8_t, 5>>::mk(v, k); break; case 6: s.f6 = Val<uint16_t>::mk(v, k); break; case 7: s.f7 = Val<int64_t>::mk(v, k); break; case 8: s.f8 = Val<rust::Vec<uint8_t>>::mk(v, k); break; } }
S13 mov_13(S13 s) { S13 t(std::move(s)); return t; } void eat_13(S13 s) { S13 t = std::move(s); }
std::unique_ptr<S13> dfl_13() { void *p = ::operator new(sizeof(S13)); memset(p, 0x5a, sizeof(S13)); return std::unique_ptr<S13>(new (p) S13{}); }
size_t size_14() { return sizeof(S14); } size_t align_14() { return alignof(S14); }
size_t off_14(size_t i) { switch (i) { case 0: return offsetof(S14, f0); case 1: return offsetof(S14, f1); case 2: return offsetof(S14, f2); case 3: return offsetof(S14, f3); case 4: return offsetof(S14, f4); case 5: return offsetof(S14, f5); case 6: return offsetof(S14, f6); case 7: return offsetof(S14, f7); } return 0; }
void get_14(const S14 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; case 6: log_(s.f6); break; case 7: log_(s.f7); break; } }
void put_14(S14 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<bool>::mk(v, k); break; case 1: s.f1 = Val<rust::isize>::mk(v, k); break; case 2: s.f2 = Val<rust::Vec<N>>::mk(v, k); break; case 3: s.f3 = Val<F2>::mk(v, k); break; case 4: s.f4 = Val<T1>::mk(v, k); break; case 5: s.f5 = Val<uint32_t>::mk(v, k); break; case 6: s.f6 = Val<rust::Box<R>>::mk(v, k); break; case 7: s.f7 = Val<std::unique_ptr<std::vector<uint32_t>>>::mk(v, k); break; } }
S14 mov_14(S14 s) { S14 t(std::move(s)); return t; } void eat_14(S14 s) { S14 t = std::move(s); }
size_t size_15() { return sizeof(S15); } size_t align_15() { return alignof(S15); }
size_t off_15(size_t i) { switch (i) { case 0: return offsetof(S15, f0); case 1: return offsetof(S15, f1); case 2: return offsetof(S15, f2); case 3: return offsetof(S15, f3); case 4: return offsetof(S15, f4); case 5: return offsetof(S15, f5); case 6: return offsetof(S15, f6); case 7: return offsetof(S15, f7); } return 0; }
void get_15(const S15 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; case 6: log_(s.f6); break; case 7: log_(s.f7); break; } }
void put_15(S15 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<char>::mk(v, k); break; case 1: s.f1 = Val<float>::mk(v, k); break; case 2: s.f2 = Val<rust::Vec<R>>::mk(v, k); break; case 3: s.f3 = Val<FI>::mk(v, k); break; case 4: s.f4 = Val<T3>::mk(v, k); break; case 5: s.f5 = Val<uint64_t>::mk(v, k); break; case 6: s.f6 = Val<rust::Box<N>>::mk(v, k); break; case 7: s.f7 = Val<std::unique_ptr<N>>::mk(v, k); break; } }
S15 mov_15(S15 s) { S15 t(std::move(s)); return t; } void eat_15(S15 s) { S15 t = std::move(s); }
size_t size_16() { return sizeof(S16); } size_t align_16() { return alignof(S16); }
size_t off_16(size_t i) { switch (i) { case 0: return offsetof(S16, f0); case 1: return offsetof(S16, f1); case 2: return offsetof(S16, f2); case 3: return offsetof(S16, f3); case 4: return offsetof(S16, f4); case 5: return offsetof(S16, f5); case 6: return offsetof(S16, f6); case 7: return offsetof(S16, f7); } return 0; }
void get_16(const S16 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; case 5: log_(s.f5); break; case 6: log_(s.f6); break; case 7: log_(s.f7); break; } }
void put_16(S16 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<uint8_t>::mk(v, k); break; case 1: s.f1 = Val<double>::mk(v, k); break; case 2: s.f2 = Val<std::unique_ptr<C>>::mk(v, k); break; case 3: s.f3 = Val<Q2>::mk(v, k); break; case 4: s.f4 = Val<Tx>::mk(v, k); break; case 5: s.f5 = Val<size_t>::mk(v, k); break; case 6: s.f6 = Val<rust::Vec<uint8_t>>::mk(v, k); break; case 7: s.f7 = Val<std::shared_ptr<C>>::mk(v, k); break; } }
S16 mov_16(S16 s) { S16 t(std::move(s)); return t; } void eat_16(S16 s) { S16 t = std::move(s); }
size_t size_17() { return sizeof(S17); } size_t align_17() { return alignof(S17); }
size_t off_17(size_t i) { switch (i) { case 0: return offsetof(S17, f0); case 1: return offsetof(S17, f1); case 2: return offsetof(S17, f2); } return 0; }
void get_17(const S17 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; } }
void put_17(S17 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<uint8_t>::mk(v, k); break; case 1: s.f1 = Val<uint64_t>::mk(v, k); break; case 2: s.f2 = Val<uint8_t>::mk(v, k); break; } }
S17 mov_17(S17 s) { S17 t(std::move(s)); return t; } void eat_17(S17 s) { S17 t = std::move(s); }
S17 copy_17(const S17 &s) { S17 t(s); return t; } void assign_17(S17 &s, const S17 &t) { s = t; }
std::unique_ptr<S17> dfl_17() { void *p = ::operator new(sizeof(S17)); memset(p, 0x5a, sizeof(S17)); return std::unique_ptr<S17>(new (p) S17{}); }
size_t size_18() { return sizeof(S18); } size_t align_18() { return alignof(S18); }
size_t off_18(size_t i) { switch (i) { case 0: return offsetof(S18, f0); case 1: return offsetof(S18, f1); case 2: return offsetof(S18, f2); case 3: return offsetof(S18, f3); } return 0; }
void get_18(const S18 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; } }
void put_18(S18 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<bool>::mk(v, k); break; case 1: s.f1 = Val<double>::mk(v, k); break; case 2: s.f2 = Val<uint16_t>::mk(v, k); break; case 3: s.f3 = Val<uint32_t>::mk(v, k); break; } }
S18 mov_18(S18 s) { S18 t(std::move(s)); return t; } void eat_18(S18 s) { S18 t = std::move(s); }
S18 copy_18(const S18 &s) { S18 t(s); return t; } void assign_18(S18 &s, const S18 &t) { s = t; }
std::unique_ptr<S18> dfl_18() { void *p = ::operator new(sizeof(S18)); memset(p, 0x5a, sizeof(S18)); return std::unique_ptr<S18>(new (p) S18{}); }
size_t size_19() { return sizeof(S19); } size_t align_19() { return alignof(S19); }
size_t off_19(size_t i) { switch (i) { case 0: return offsetof(S19, f0); } return 0; }
void get_19(const S19 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; } }
void put_19(S19 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<uint8_t>::mk(v, k); break; } }
S19 mov_19(S19 s) { S19 t(std::move(s)); return t; } void eat_19(S19 s) { S19 t = std::move(s); }
S19 copy_19(const S19 &s) { S19 t(s); return t; } void assign_19(S19 &s, const S19 &t) { s = t; }
std::unique_ptr<S19> dfl_19() { void *p = ::operator new(sizeof(S19)); memset(p, 0x5a, sizeof(S19)); return std::unique_ptr<S19>(new (p) S19{}); }
size_t size_20() { return sizeof(S20); } size_t align_20() { return alignof(S20); }
size_t off_20(size_t i) { switch (i) { case 0: return offsetof(S20, f0); case 1: return offsetof(S20, f1); } return 0; }
void get_20(const S20 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; } }
void put_20(S20 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<N>::mk(v, k); break; case 1: s.f1 = Val<uint8_t>::mk(v, k); break; } }
S20 mov_20(S20 s) { S20 t(std::move(s)); return t; } void eat_20(S20 s) { S20 t = std::move(s); }
S20 copy_20(const S20 &s) { S20 t(s); return t; } void assign_20(S20 &s, const S20 &t) { s = t; }
std::unique_ptr<S20> dfl_20() { void *p = ::operator new(sizeof(S20)); memset(p, 0x5a, sizeof(S20)); return std::unique_ptr<S20>(new (p) S20{}); }
size_t size_21() { return sizeof(S21); } size_t align_21() { return alignof(S21); }
size_t off_21(size_t i) { switch (i) { case 0: return offsetof(S21, f0); case 1: return offsetof(S21, f1); case 2: return offsetof(S21, f2); case 3: return offsetof(S21, f3); case 4: return offsetof(S21, f4); } return 0; }
void get_21(const S21 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; case 2: log_(s.f2); break; case 3: log_(s.f3); break; case 4: log_(s.f4); break; } }
void put_21(S21 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<uint8_t>::mk(v, k); break; case 1: s.f1 = Val<std::array<uint8_t, 5>>::mk(v, k); break; case 2: s.f2 = Val<uint16_t>::mk(v, k); break; case 3: s.f3 = Val<P1>::mk(v, k); break; case 4: s.f4 = Val<En>::mk(v, k); break; } }
S21 mov_21(S21 s) { S21 t(std::move(s)); return t; } void eat_21(S21 s) { S21 t = std::move(s); }
S21 copy_21(const S21 &s) { S21 t(s); return t; } void assign_21(S21 &s, const S21 &t) { s = t; }
std::unique_ptr<S21> dfl_21() { void *p = ::operator new(sizeof(S21)); memset(p, 0x5a, sizeof(S21)); return std::unique_ptr<S21>(new (p) S21{}); }
size_t size_22() { return sizeof(S22); } size_t align_22() { return alignof(S22); }
size_t off_22(size_t i) { switch (i) { case 0: return offsetof(S22, f0); case 1: return offsetof(S22, f1); } return 0; }
void get_22(const S22 &s, size_t i) { switch (i) { case 0: log_(s.f0); break; case 1: log_(s.f1); break; } }
void put_22(S22 &s, size_t i, uint64_t v, size_t k) { switch (i) { case 0: s.f0 = Val<uint64_t>::mk(v, k); break; case 1: s.f1 = Val<uint8_t>::mk(v, k); break; } }
S22 mov_22(S22 s) { S22 t(std::move(s)); return t; } void eat_22(S22 s) { S22 t = std::move(s); }
S22 copy_22(const S22 &s) { S22 t(s); return t; } void assign_22(S22 &s, const S22 &t) { s = t; }
std::unique_ptr<S22> dfl_22() { void *p = ::operator new(sizeof(S22)); memset(p, 0x5a, sizeof(S22)); return std::unique_ptr<S22>(new (p) S22{}); }
Eu8 echo_Eu8(Eu8 e) { return e; } uint64_t num_Eu8(Eu8 e) { return (uint64_t)e; } size_t esize_Eu8() { return sizeof(Eu8); }
Eu8 variant_Eu8(size_t i) { switch (i) { case 0: return Eu8::A; case 1: return Eu8::B; case 2: return Eu8::C; } return (Eu8)0; }
size_t which_Eu8(Eu8 e) { switch (e) { case Eu8::A: return 0; case Eu8::B: return 1; case Eu8::C: return 2; } return 99; }
Eu8 in_Eu8(Hold_Eu8 &h) { h.a++; h.b[0] = h.e; h.e = Eu8::B; auto r = h.b[1]; h.b[1] = Eu8::A; return r; }
Ei8 echo_Ei8(Ei8 e) { return e; } uint64_t num_Ei8(Ei8 e) { return (uint64_t)e; } size_t esize_Ei8() { return sizeof(Ei8); }
Ei8 variant_Ei8(size_t i) { switch (i) { case 0: return Ei8::A; case 1: return Ei8::B; case 2: return Ei8::C; case 3: return Ei8::D; } return (Ei8)0; }
size_t which_Ei8(Ei8 e) { switch (e) { case Ei8::A: return 0; case Ei8::B: return 1; case Ei8::C: return 2; case Ei8::D: return 3; } return 99; }
Ei8 in_Ei8(Hold_Ei8 &h) { h.a++; h.b[0] = h.e; h.e = Ei8::B; auto r = h.b[1]; h.b[1] = Ei8::A; return r; }
Eu16 echo_Eu16(Eu16 e) { return e; } uint64_t num_Eu16(Eu16 e) { return (uint64_t)e; } size_t esize_Eu16() { return sizeof(Eu16); }
Eu16 variant_Eu16(size_t i) { switch (i) { case 0: return Eu16::A; case 1: return Eu16::B; } return (Eu16)0; }
size_t which_Eu16(Eu16 e) { switch (e) { case Eu16::A: return 0; case Eu16::B: return 1; } return 99; }
Eu16 in_Eu16(Hold_Eu16 &h) { h.a++; h.b[0] = h.e; h.e = Eu16::B; auto r = h.b[1]; h.b[1] = Eu16::A; return r; }
Eii16 echo_Eii16(Eii16 e) { return e; } uint64_t num_Eii16(Eii16 e) { return (uint64_t)e; } size_t esize_Eii16() { return sizeof(Eii16); }
Eii16 variant_Eii16(size_t i) { switch (i) { case 0: return Eii16::A; case 1: return Eii16::B; } return (Eii16)0; }
size_t which_Eii16(Eii16 e) { switch (e) { case Eii16::A: return 0; case Eii16::B: return 1; } return 99; }
Eii16 in_Eii16(Hold_Eii16 &h) { h.a++; h.b[0] = h.e; h.e = Eii16::B; auto r = h.b[1]; h.b[1] = Eii16::A; return r; }
Eu32 echo_Eu32(Eu32 e) { return e; } uint64_t num_Eu32(Eu32 e) { return (uint64_t)e; } size_t esize_Eu32() { return sizeof(Eu32); }
Eu32 variant_Eu32(size_t i) { switch (i) { case 0: return Eu32::A; case 1: return Eu32::B; } return (Eu32)0; }
size_t which_Eu32(Eu32 e) { switch (e) { case Eu32::A: return 0; case Eu32::B: return 1; } return 99; }
Eu32 in_Eu32(Hold_Eu32 &h) { h.a++; h.b[0] = h.e; h.e = Eu32::B; auto r = h.b[1]; h.b[1] = Eu32::A; return r; }
Ei32 echo_Ei32(Ei32 e) { return e; } uint64_t num_Ei32(Ei32 e) { return (uint64_t)e; } size_t esize_Ei32() { return sizeof(Ei32); }
Ei32 variant_Ei32(size_t i) { switch (i) { case 0: return Ei32::A; case 1: return Ei32::B; case 2: return Ei32::C; } return (Ei32)0; }
size_t which_Ei32(Ei32 e) { switch (e) { case Ei32::A: return 0; case Ei32::B: return 1; case Ei32::C: return 2; } return 99; }
Ei32 in_Ei32(Hold_Ei32 &h) { h.a++; h.b[0] = h.e; h.e = Ei32::B; auto r = h.b[1]; h.b[1] = Ei32::A; return r; }
Euu64 echo_Euu64(Euu64 e) { return e; } uint64_t num_Euu64(Euu64 e) { return (uint64_t)e; } size_t esize_Euu64() { return sizeof(Euu64); }
Euu64 variant_Euu64(size_t i) { switch (i) { case 0: return Euu64::A; case 1: return Euu64::B; } return (Euu64)0; }
size_t which_Euu64(Euu64 e) { switch (e) { case Euu64::A: return 0; case Euu64::B: return 1; } return 99; }
Euu64 in_Euu64(Hold_Euu64 &h) { h.a++; h.b[0] = h.e; h.e = Euu64::B; auto r = h.b[1]; h.b[1] = Euu64::A; return r; }
Ei64 echo_Ei64(Ei64 e) { return e; } uint64_t num_Ei64(Ei64 e) { return (uint64_t)e; } size_t esize_Ei64() { return sizeof(Ei64); }
Ei64 variant_Ei64(size_t i) { switch (i) { case 0: return Ei64::A; case 1: return Ei64::B; } return (Ei64)0; }
size_t which_Ei64(Ei64 e) { switch (e) { case Ei64::A: return 0; case Ei64::B: return 1; } return 99; }
Ei64 in_Ei64(Hold_Ei64 &h) { h.a++; h.b[0] = h.e; h.e = Ei64::B; auto r = h.b[1]; h.b[1] = Ei64::A; return r; }
Eusize echo_Eusize(Eusize e) { return e; } uint64_t num_Eusize(Eusize e) { return (uint64_t)e; } size_t esize_Eusize() { return sizeof(Eusize); }
Eusize variant_Eusize(size_t i) { switch (i) { case 0: return Eusize::A; case 1: return Eusize::B; } return (Eusize)0; }
size_t which_Eusize(Eusize e) { switch (e) { case Eusize::A: return 0; case Eusize::B: return 1; } return 99; }
Eusize in_Eusize(Hold_Eusize &h) { h.a++; h.b[0] = h.e; h.e = Eusize::B; auto r = h.b[1]; h.b[1] = Eusize::A; return r; }
Eisize echo_Eisize(Eisize e) { return e; } uint64_t num_Eisize(Eisize e) { return (uint64_t)e; } size_t esize_Eisize() { return sizeof(Eisize); }
Eisize variant_Eisize(size_t i) { switch (i) { case 0: return Eisize::A; case 1: return Eisize::B; } return (Eisize)0; }
size_t which_Eisize(Eisize e) { switch (e) { case Eisize::A: return 0; case Eisize::B: return 1; } return 99; }
Eisize in_Eisize(Hold_Eisize &h) { h.a++; h.b[0] = h.e; h.e = Eisize::B; auto r = h.b[1]; h.b[1] = Eisize::A; return r; }
Eimp echo_Eimp(Eimp e) { return e; } uint64_t num_Eimp(Eimp e) { return (uint64_t)e; } size_t esize_Eimp() { return sizeof(Eimp); }
Eimp variant_Eimp(size_t i) { switch (i) { case 0: return Eimp::A; case 1: return Eimp::B; case 2: return Eimp::C; case 3: return Eimp::D; case 4: return Eimp::E; case 5: return Eimp::F; } return (Eimp)0; }
size_t which_Eimp(Eimp e) { switch (e) { case Eimp::A: return 0; case Eimp::B: return 1; case Eimp::C: return 2; case Eimp::D: return 3; case Eimp::E: return 4; case Eimp::F: return 5; } return 99; }
Eimp in_Eimp(Hold_Eimp &h) { h.a++; h.b[0] = h.e; h.e = Eimp::B; auto r = h.b[1]; h.b[1] = Eimp::A; return r; }
Einf echo_Einf(Einf e) { return e; } uint64_t num_Einf(Einf e) { return (uint64_t)e; } size_t esize_Einf() { return sizeof(Einf); }
Einf variant_Einf(size_t i) { switch (i) { case 0: return Einf::A; case 1: return Einf::B; } return (Einf)0; }
size_t which_Einf(Einf e) { switch (e) { case Einf::A: return 0; case Einf::B: return 1; } return 99; }
Einf in_Einf(Hold_Einf &h) { h.a++; h.b[0] = h.e; h.e = Einf::B; auto r = h.b[1]; h.b[1] = Einf::A; return r; }
Eneg echo_Eneg(Eneg e) { return e; } uint64_t num_Eneg(Eneg e) { return (uint64_t)e; } size_t esize_Eneg() { return sizeof(Eneg); }
Eneg variant_Eneg(size_t i) { switch (i) { case 0: return Eneg::A; case 1: return Eneg::B; case 2: return Eneg::C; case 3: return Eneg::D; case 4: return Eneg::E; } return (Eneg)0; }
size_t which_Eneg(Eneg e) { switch (e) { case Eneg::A: return 0; case Eneg::B: return 1; case Eneg::C: return 2; case Eneg::D: return 3; case Eneg::E: return 4; } return 99; }
Eneg in_Eneg(Hold_Eneg &h) { h.a++; h.b[0] = h.e; h.e = Eneg::B; auto r = h.b[1]; h.b[1] = Eneg::A; return r; }
Ebig echo_Ebig(Ebig e) { return e; } uint64_t num_Ebig(Ebig e) { return (uint64_t)e; } size_t esize_Ebig() { return sizeof(Ebig); }
Ebig variant_Ebig(size_t i) { switch (i) { case 0: return Ebig::A; case 1: return Ebig::B; } return (Ebig)0; }
size_t which_Ebig(Ebig e) { switch (e) { case Ebig::A: return 0; case Ebig::B: return 1; } return 99; }
Ebig in_Ebig(Hold_Ebig &h) { h.a++; h.b[0] = h.e; h.e = Ebig::B; auto r = h.b[1]; h.b[1] = Ebig::A; return r; }
Eext echo_Eext(Eext e) { return e; } uint64_t num_Eext(Eext e) { return (uint64_t)e; } size_t esize_Eext() { return sizeof(Eext); }
Eext variant_Eext(size_t i) { switch (i) { case 0: return Eext::A; case 1: return Eext::B; } return (Eext)0; }
size_t which_Eext(Eext e) { switch (e) { case Eext::A: return 0; case Eext::B: return 1; } return 99; }
Eext in_Eext(Hold_Eext &h) { h.a++; h.b[0] = h.e; h.e = Eext::B; auto r = h.b[1]; h.b[1] = Eext::A; return r; }
size_t look(const Refs &k) { log_str(k.s); log_slice(k.b); log_slice(k.m); logr(k.x); logr(k.y); logr(k.c); logr(k.d); logr(k.t); logr(k.r); logr(k.v); return sizeof(Refs); }
Refs give(Refs s) { return s; }
void touch(Refs &s, uint64_t v) { for (auto &x : s.m) x = v; s.y.x = v; s.d.v = v; }

size_t grid_size() { return sizeof(Grid); } size_t grid_off(size_t i) { switch (i) { case 0: return offsetof(Grid, m); case 1: return offsetof(Grid, t); case 2: return offsetof(Grid, e); default: return offsetof(Grid, z); } }
uint16_t grid_m(const Grid &g, size_t i, size_t j) { return g.m.data()[i].data()[j]; } uint8_t grid_t(const Grid &g, size_t i, size_t j, size_t k) { return g.t.data()[i].data()[j].data()[k]; } En grid_e(const Grid &g, size_t i) { return g.e.data()[i].data()[0]; }
void grid_put_m(Grid &g, size_t i, size_t j, uint16_t v) { g.m.data()[i].data()[j] = v; } void grid_put_t(Grid &g, size_t i, size_t j, size_t k, uint8_t v) { g.t.data()[i].data()[j].data()[k] = v; } Grid grid_copy(Grid g) { Grid h(std::move(g)); return h; }
