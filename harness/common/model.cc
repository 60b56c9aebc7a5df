// Stand-ins for the out-of-line parts of libstdc++ (exception classes and throw helpers), compiled
// to IR for the symbolic executor only. Trusted: they follow the documented behaviour.
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <memory>
#include <functional>
#include <string>
#include <cstdlib>
#include <cstring>

extern "C" { char __libc_single_threaded = 0; }

template class std::basic_string<char>;
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }

static char *dup(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = dup("", 0); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = dup(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = dup(o._M_p, strlen(o._M_p)); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = dup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }

logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const string &s) : _M_msg(s.data(), s.size()) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return *(const char *const *)(const void *)&_M_msg; }
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const string &s) : _M_msg(s.data(), s.size()) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return *(const char *const *)(const void *)&_M_msg; }
#define LE(T) T::T(const char *s) : logic_error(s) {} T::T(const string &s) : logic_error(s) {} T::~T() noexcept {}
LE(domain_error) LE(invalid_argument) LE(length_error) LE(out_of_range)
#define RE(T) T::T(const char *s) : runtime_error(s) {} T::T(const string &s) : runtime_error(s) {} T::~T() noexcept {}
RE(range_error) RE(overflow_error) RE(underflow_error)

void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_function_call() { throw bad_function_call(); }
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull; return h; }
} // namespace std
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
// Stream output: recorded in a buffer (see os.h).
#include <cstddef>
extern "C" {
char symx_os_buf[256]; size_t symx_os_len; long symx_os_obj[64];
static void *symx_os_put(void *os, const char *p, long n) { for (long i = 0; i < n; i++) { if (symx_os_len >= sizeof symx_os_buf) abort(); symx_os_buf[symx_os_len++] = p[i]; } return os; }
void *symx_os_write(void *os, const char *p, long n) __asm__("_ZNSo5writeEPKcl");
void *symx_os_write(void *os, const char *p, long n) { return symx_os_put(os, p, n); }
void *symx_os_insert(void *os, const char *p, long n) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
void *symx_os_insert(void *os, const char *p, long n) { return symx_os_put(os, p, n); }
void *symx_os_putc(void *os, char c) __asm__("_ZNSo3putEc");
void *symx_os_putc(void *os, char c) { return symx_os_put(os, &c, 1); }
}
// C string functions.
#define CSTR __attribute__((noinline, optnone))
extern "C" {
CSTR int symx_strncmp(const char *a, const char *b, size_t n) __asm__("strncmp");
CSTR int symx_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) break; } return 0; }
CSTR int symx_strcmp(const char *a, const char *b) __asm__("strcmp");
CSTR int symx_strcmp(const char *a, const char *b) { for (size_t i = 0;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
CSTR size_t symx_strnlen(const char *a, size_t n) __asm__("strnlen");
CSTR size_t symx_strnlen(const char *a, size_t n) { size_t i = 0; while (i < n && a[i]) i++; return i; }
CSTR const char *symx_strchr(const char *a, int c) __asm__("strchr");
CSTR const char *symx_strchr(const char *a, int c) { for (;; a++) { if (*a == (char)c) return a; if (!*a) return nullptr; } }
CSTR const char *symx_strrchr(const char *a, int c) __asm__("strrchr");
CSTR const char *symx_strrchr(const char *a, int c) { const char *r = nullptr; for (;; a++) { if (*a == (char)c) r = a; if (!*a) return r; } }
CSTR const void *symx_memrchr(const void *p, int c, size_t n) __asm__("memrchr");
CSTR const void *symx_memrchr(const void *p, int c, size_t n) { const char *a = (const char *)p; while (n--) if (a[n] == (char)c) return a + n; return nullptr; }
CSTR char *symx_strcpy(char *d, const char *s) __asm__("strcpy");
CSTR char *symx_strcpy(char *d, const char *s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
CSTR char *symx_stpcpy(char *d, const char *s) __asm__("stpcpy");
CSTR char *symx_stpcpy(char *d, const char *s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) return d + i; } }
CSTR char *symx_strncpy(char *d, const char *s, size_t n) __asm__("strncpy");
CSTR char *symx_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
CSTR char *symx_strcat(char *d, const char *s) __asm__("strcat");
CSTR char *symx_strcat(char *d, const char *s) { symx_strcpy(d + strlen(d), s); return d; }
CSTR char *symx_strdup(const char *s) __asm__("strdup");
CSTR char *symx_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
}
