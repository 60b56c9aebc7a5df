// Interface between harnesses and symx; natively the same functions replay a counterexample.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sym_u64(uint64_t bits, const char *name);              // unconstrained value of `bits` bits
uint64_t sym_range(uint64_t lo, uint64_t hi, const char *name); // symbolic value in [lo,hi]
uint64_t sym_choice(uint64_t n, const char *name);              // one path per value in [0,n)
void sym_bytes(void *p, size_t n, const char *name);
void sym_assume(int c);
void sym_assert(int c, const char *id);
void sym_reach(const char *id);
void sym_note(const char *s);
void sym_note_u64(const char *s, uint64_t v);
uint64_t sym_live(void);          // live heap allocations (all allocators)
void sym_expect_abort(int on);    // a process abort is the demanded outcome from here on
uint64_t sym_concrete(uint64_t v);
int sym_and(int a, int b);        // no control flow
int sym_or(int a, int b);
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
int sym_on_engine(void);
void sym_exit(void);
#ifdef __cplusplus
}
#endif
#ifdef __cplusplus
extern "C"
#endif
int sym_tier(void);               // 0 quick, 1 thorough
