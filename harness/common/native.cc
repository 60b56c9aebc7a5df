// Native counterpart of the harness interface: replays recorded inputs against the real build.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <new>
#include <csignal>
#include <unistd.h>
#include <exception>
extern "C" {
struct entry_t { const char *name; void (*fn)(void); };
extern const entry_t entries[];
}
static std::vector<std::pair<std::string, std::string>> inputs; static size_t pos; static int expect_abort; static int tier;
static std::vector<bool> used;
static const std::string &next(const char *name) { // by name: argument evaluation order differs between compilers
  for (size_t i = 0; i < inputs.size(); i++) if (!used[i] && !strcmp(inputs[i].first.c_str(), name)) { used[i] = true; return inputs[i].second; }
  fprintf(stderr, "replay: no input left for %s\n", name); _exit(20);
}
extern "C" {
uint64_t sym_u64(uint64_t, const char *n) { return strtoull(next(n).c_str(), 0, 10); }
uint64_t sym_range(uint64_t, uint64_t, const char *n) { return strtoull(next(n).c_str(), 0, 10); }
uint64_t sym_choice(uint64_t, const char *n) { return strtoull(next(n).c_str(), 0, 10); }
void sym_bytes(void *p, size_t n, const char *name) { const std::string &v = next(name); for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)strtol(v.substr(1 + 2 * i, 2).c_str(), 0, 16); }
void sym_assume(int c) { if (!c) { fprintf(stderr, "replay: assumption not met\n"); _exit(21); } }
void sym_assert(int c, const char *id) { if (!c) { printf("ASSERT-FAILED %s\n", id); fflush(stdout); _exit(10); } }
void sym_reach(const char *) {}
void sym_note(const char *s) { printf("note: %s\n", s); }
void sym_note_u64(const char *s, uint64_t v) { printf("note: %s=%llu\n", s, (unsigned long long)v); }
void sym_note_n(const char *s, size_t n) { printf("note: %.*s\n", (int)n, s); }
void sym_expect_abort(int on) { expect_abort = on; }
uint64_t sym_concrete(uint64_t v) { return v; }
int sym_and(int a, int b) { return a && b; }
int sym_or(int a, int b) { return a || b; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sym_eqn(const void *a, const void *b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
uint64_t sym_find(const unsigned char *h, size_t hn, const unsigned char *q, size_t n, size_t from) { for (size_t i = from; i + n <= hn; i++) if (sym_eqn(h + i, q, n)) return i; return ~0ull; }
int sym_contains(const unsigned char *h, size_t hn, const unsigned char *q, size_t n) { return sym_find(h, hn, q, n, 0) != ~0ull; }
int sym_on_engine(void) { return 0; }
int sym_is_symbolic(uint64_t) { return 0; }
int sym_tier(void) { return tier; }
extern int sym_wants_args __attribute__((weak)); // harnesses that set the program's arguments
void sym_exit(void) { printf("REPLAY-PASS\n"); fflush(stdout); _exit(0); }
}
#ifdef COUNT_LIVE
static long live;
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (!q && p) live++; return p; }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) live++; return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); if (p) live++; return p; }
uint64_t sym_live(void) { return (uint64_t)live; }
}
void *operator new(size_t n) { return __wrap_malloc(n); } void *operator new[](size_t n) { return __wrap_malloc(n); }
void operator delete(void *p) noexcept { __wrap_free(p); } void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); } void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
#else
extern "C" uint64_t sym_live(void) { return 0; }
#endif
// std keeps the address of main's argv, so new arguments are put there. They end at the first null pointer.
static char **main_argv; static int main_argc;
extern "C" uint64_t sym_std_args(void) { return 0; }
extern "C" void sym_native_args(int n, char **v) { if (n >= main_argc) _exit(22); for (int i = 0; i < n; i++) main_argv[i] = v[i]; main_argv[n] = 0; }
static void onabort(int s) { const char *m = expect_abort ? "ABORT-EXPECTED\n" : s == SIGABRT || s == SIGILL || s == SIGTRAP ? "ABORT-UNEXPECTED\n" : "CRASH\n"; ssize_t r = write(1, m, strlen(m)); (void)r; _exit(expect_abort ? 0 : 11); }
static void onterm() { onabort(SIGABRT); }
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  if (&sym_wants_args && argc < 40) { std::vector<char *> a(argv, argv + argc); if (argc == 3) a.push_back((char *)"0"); while (a.size() < 40) a.push_back((char *)"-"); a.push_back(0); execv("/proc/self/exe", a.data()); return 23; }
  main_argc = argc; main_argv = argv;
  { std::ifstream f(argv[2]); std::string l; while (std::getline(f, l)) { size_t t = l.rfind('\t'); if (t != std::string::npos) inputs.push_back({l.substr(0, t), l.substr(t + 1)}); } }
  used.resize(inputs.size());
  if (argc > 3) tier = atoi(argv[3]);
  signal(SIGABRT, onabort); signal(SIGSEGV, onabort); signal(SIGBUS, onabort); signal(SIGILL, onabort); signal(SIGTRAP, onabort); signal(SIGFPE, onabort);
  std::set_terminate(onterm);
  for (const entry_t *e = entries; e->name; e++) if (!strcmp(e->name, argv[1])) { e->fn(); printf("REPLAY-PASS\n"); fflush(stdout); _exit(0); }
  fprintf(stderr, "no entry %s\n", argv[1]); return 2;
}
