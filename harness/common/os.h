// An output stream whose bytes can be read back. Under symx the three out-of-line output functions of
// libstdc++ are modelled and record what they are given; natively this is a std::ostringstream.
#pragma once
#include <ostream>
#include <string>
#ifdef SYMX
extern "C" { extern char symx_os_buf[256]; extern size_t symx_os_len; extern long symx_os_obj[64]; }
struct SymOs { SymOs() { symx_os_len = 0; } std::ostream &os() { return *reinterpret_cast<std::ostream *>(symx_os_obj); } const char *data() const { return symx_os_buf; } size_t size() const { return symx_os_len; } };
#else
#include <sstream>
struct SymOs { std::ostringstream s; mutable std::string t; std::ostream &os() { return s; } const char *data() const { t = s.str(); return t.data(); } size_t size() const { return s.str().size(); } };
#endif
