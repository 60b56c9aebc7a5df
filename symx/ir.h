// Textual LLVM IR: indexing, types, constants, lazy function decoding.
#pragma once
#include "expr.h"
#include <string_view>
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <functional>
typedef std::string_view sv;
#include <stdexcept>

struct IrError : std::runtime_error { using std::runtime_error::runtime_error; };

enum TK : u8 { T_VOID, T_INT, T_PTR, T_FP, T_VEC, T_ARR, T_STRUCT, T_FUNC, T_LABEL, T_META, T_TOKEN, T_OPAQUE };
struct Slot { u32 off; u16 w; bool fp; };
struct Type {
  TK k; unsigned w = 0; u64 n = 0; Type* el = nullptr; std::vector<Type*> els; bool packed = false;
  u64 size = 0, align = 1; std::vector<u64> offs; std::vector<Slot> slots; std::vector<u32> slotIdx; bool laid = false, slotted = false;
  u32 nslots() { slotify(); return (u32)slots.size(); }
  void layout() {
    if (laid) return; laid = true;
    switch (k) {
      case T_INT: { u64 b = (w + 7) / 8; u64 a = 1; while (a < b && a < 16) a *= 2; align = a; size = (b + a - 1) / a * a; break; }
      case T_PTR: size = align = 8; break;
      case T_FP: if (w == 80) { size = 16; align = 16; } else { size = align = w / 8; } break;
      case T_VEC: { u64 b = (n * (el->k == T_PTR ? 64 : el->w) + 7) / 8; u64 a = 1; while (a < b) a *= 2; align = a; size = a; break; }
      case T_ARR: el->layout(); size = n * el->size; align = el->align; break;
      case T_STRUCT: {
        u64 o = 0, mx = 1;
        for (Type* t : els) { t->layout(); u64 a = packed ? 1 : t->align; mx = std::max(mx, a); o = (o + a - 1) / a * a; offs.push_back(o); o += t->size; }
        align = packed ? 1 : mx; size = (o + align - 1) / align * align; break;
      }
      default: break;
    }
  }
  void slotify() {
    if (slotted) return; slotted = true; layout();
    switch (k) {
      case T_INT: slots.push_back({0, (u16)w, false}); break;
      case T_PTR: slots.push_back({0, 64, false}); break;
      case T_FP: slots.push_back({0, (u16)w, true}); break;
      case T_VEC: { unsigned ew = el->k == T_PTR ? 64 : el->w; for (u64 i = 0; i < n; i++) slots.push_back({(u32)(i * ew / 8), (u16)ew, el->k == T_FP}); break; }
      case T_ARR: for (u64 i = 0; i < n; i++) { el->slotify(); slotIdx.push_back((u32)slots.size()); for (auto s : el->slots) { s.off += (u32)(i * el->size); slots.push_back(s); } } break;
      case T_STRUCT: for (size_t i = 0; i < els.size(); i++) { els[i]->slotify(); slotIdx.push_back((u32)slots.size()); for (auto s : els[i]->slots) { s.off += (u32)offs[i]; slots.push_back(s); } } break;
      case T_VOID: case T_LABEL: case T_META: case T_TOKEN: case T_FUNC: case T_OPAQUE: break;
    }
  }
};

struct Val { u64 c; E e; };
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
static inline Val fromE(E e) { if (e->op == O_CONST && e->w <= 64) return {(u64)e->k, nullptr}; return {0, e}; }
static inline Val cval(u128 k, unsigned w) { if (w > 64) return {0, P.cst(k, w)}; return {(u64)(k & maskw(w)), nullptr}; }

enum IOp : u8 {
  I_BIN, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_CAST, I_BITCAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL,
  I_EXTRACTV, I_INSERTV, I_EXTRACTE, I_INSERTE, I_SHUFFLE, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACHABLE, I_RESUME,
  I_LANDINGPAD, I_CMPXCHG, I_ATOMICRMW, I_FENCE, I_FREEZE, I_COPY, I_UNSUPPORTED
};
enum Cast : u8 { C_TRUNC, C_ZEXT, C_SEXT, C_FPTRUNC, C_FPEXT, C_FPTOUI, C_FPTOSI, C_UITOFP, C_SITOFP };

struct Instr { IOp op; u8 sub; u16 w; u32 n; i64 pad() const { return 0; } int dst, a, b, c; void* x; };
struct GepInfo { i64 base = 0; struct T { int r; i64 scale; u16 w; }; std::vector<T> terms; };
struct PhiEdge { int pred; int src; };
struct Phi { int dst; u32 n; std::vector<PhiEdge> edges; };
struct Block { std::string name; int start = -1; std::vector<Phi> phis; };
struct SwitchInfo { std::vector<std::pair<u128, int>> cases; std::unordered_map<u64, int> fast; int def; };
struct LPInfo { bool cleanup = false; struct Clause { bool filter; std::vector<u64> tis; }; std::vector<Clause> cl; };
struct ArgInfo { int r; Type* ty; Type* byval; u8 ext; };
struct Function;
struct CallInfo {
  std::vector<ArgInfo> args; Type* ret; u8 retExt = 0; int calleeReg = 0; u64 calleeAddr = 0; bool indirect = false, isAsm = false; std::string asmText;
  bool nounwind = false; int normal = -1, unwind = -1; // invoke
  sv name; Function* fn = nullptr; int builtin = -1; bool resolved = false;
};
struct StrInfo { std::string s; };
struct IdxInfo { std::vector<int> idx; };

struct Module; 
struct Param { std::string name; Type* ty; Type* byval = nullptr; int reg; u8 ext = 0; };
struct Function {
  sv name; Module* mod = nullptr; const char* text = nullptr; const char* end = nullptr; bool decl = true; u64 addr = 0;
  bool decoded = false; Type* ret = nullptr; std::vector<Param> params; bool vararg = false; bool nounwind = false, hasPers = false;
  std::vector<Block> blocks; std::vector<Instr> code; std::vector<Val> consts; u32 nregs = 0;
  u64 execCount = 0; int builtin = -2; u8 linkage = 0; // 1 internal 2 weak
};
struct Global { sv name; Module* mod; const char* text; bool decl, cst, internal, tls; u64 addr = 0; Type* ty = nullptr; u64 size = 0, align = 1; const char* init = nullptr; };
struct Alias { sv name; Module* mod; const char* text; bool resolving = false; u64 addr = 0; bool done = false; };
struct Module {
  std::string path; const char* base; size_t len;
  std::unordered_map<sv, Type*> types; std::unordered_map<sv, const char*> typeText;
  std::unordered_map<sv, Function*> lf; std::unordered_map<sv, Global*> lg; std::unordered_map<sv, Alias*> la; // all in module
  std::unordered_map<int, bool> attrNounwind; std::unordered_map<int, const char*> attrText;
};

struct Linker {
  std::vector<Module*> mods;
  std::unordered_map<sv, Function*> gf; std::unordered_map<sv, Global*> gg; std::unordered_map<sv, Alias*> ga;
  std::vector<Function*> byAddr; std::deque<std::string> strings;
  static const u64 FBASE = 0x700000000000ull;
  std::function<u64(Global*)> placeGlobal; // assigns address
  u64 fnAddr(Function* f) { if (!f->addr) { f->addr = FBASE + 16 * (byAddr.size() + 1); byAddr.push_back(f); } return f->addr; }
  Function* fnAt(u64 a) { if (a < FBASE + 16 || ((a - FBASE) & 15)) return nullptr; u64 i = (a - FBASE) / 16 - 1; return i < byAddr.size() ? byAddr[i] : nullptr; }
  sv keep(std::string s) { strings.push_back(std::move(s)); return strings.back(); }
  void load(const std::string& path);
  Function* findFn(Module* m, sv name);
  Function* externStub(sv name);
  u64 symAddr(Module* m, sv name);
};
extern Linker L;

// ---------------------------------------------------------------- lexer
struct Lex {
  const char* p; const char* e; Module* m;
  Lex(const char* p_, const char* e_, Module* m_) : p(p_), e(e_), m(m_) {}
  void ws() { while (p < e) { if (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++; else if (*p == ';') { while (p < e && *p != '\n') p++; } else break; } }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '$' || c == '.' || c == '-'; }
  char peekc() { ws(); return p < e ? *p : 0; }
  // token text (view)
  sv tok() {
    ws(); if (p >= e) return sv();
    const char* s = p; char c = *p;
    if (c == '%' || c == '@' || c == '!' || c == '#' || c == '$') {
      p++; if (p < e && *p == '"') { p++; while (*p != '"') p++; p++; } else while (p < e && idc(*p)) p++;
      return sv(s, p - s);
    }
    if (c == '"') { p++; while (*p != '"') p++; p++; return sv(s, p - s); }
    if (c == 'c' && p + 1 < e && p[1] == '"') { p += 2; while (*p != '"') p++; p++; return sv(s, p - s); }
    if (idc(c)) { while (p < e && (idc(*p) || (*p == '+' && (p[-1] == 'e' || p[-1] == 'E')))) p++; return sv(s, p - s); }
    if (c == '.' && p + 2 < e && p[1] == '.' && p[2] == '.') { p += 3; return sv(s, 3); }
    p++; return sv(s, 1);
  }
  sv peek() { const char* s = p; sv t = tok(); p = s; return t; }
  bool accept(sv t) { const char* s = p; if (tok() == t) return true; p = s; return false; }
  void expect(sv t) { sv g = tok(); if (g != t) fail(std::string("expected '") + std::string(t) + "' got '" + std::string(g) + "'"); }
  [[noreturn]] void fail(const std::string& w) { const char* q = p; while (q > m->base && q[-1] != '\n') q--; const char* r = p; while (r < e && *r != '\n') r++; throw IrError(w + " in: " + std::string(q, std::min<size_t>(r - q, 300))); }
  void skipLine() { while (p < e && *p != '\n') p++; }
  void balanced() { // at '('
    int d = 0; do { sv t = tok(); if (t.empty()) fail("eof in parens"); if (t == "(" || t == "[" || t == "{") d++; else if (t == ")" || t == "]" || t == "}") d--; } while (d > 0);
  }
};
static inline std::string unq(sv t) { // strip sigil and quotes, unescape
  if (!t.empty() && (t[0] == '%' || t[0] == '@' || t[0] == '$' || t[0] == '!')) t.remove_prefix(1);
  if (t.size() >= 2 && t[0] == '"') {
    t = t.substr(1, t.size() - 2);
    if (t.find('\\') == sv::npos) return std::string(t);
    std::string r; for (size_t i = 0; i < t.size(); i++) if (t[i] == '\\') { if (t[i + 1] == '\\') { r += '\\'; i++; } else { r += (char)strtol(std::string(t.substr(i + 1, 2)).c_str(), 0, 16); i += 2; } } else r += t[i];
    if (!r.empty() && r[0] == 1) r = r.substr(1);
    return r;
  }
  return std::string(t);
}
static inline sv nameOf(sv t) { // symbol name as view when simple
  t.remove_prefix(1);
  if (!t.empty() && t[0] == '"') { sv in = t.substr(1, t.size() - 2); if (in.find('\\') == sv::npos) return in; std::string u = unq(t); return L.keep(u); }
  return t;
}

struct TypeCtx {
  std::map<std::string, Type*> mk;
  Type* voidT = new Type{T_VOID}; Type* ptrT = new Type{T_PTR, 64}; Type* labelT = new Type{T_LABEL}; Type* metaT = new Type{T_META}; Type* tokT = new Type{T_TOKEN};
  Type* intT(unsigned w) { auto& t = mk["i" + std::to_string(w)]; if (!t) t = new Type{T_INT, w}; return t; }
  Type* fpT(unsigned w) { auto& t = mk["f" + std::to_string(w)]; if (!t) t = new Type{T_FP, w}; return t; }
  Type* vecT(u64 n, Type* el) { auto& t = mk["v" + std::to_string(n) + "x" + std::to_string((u64)el)]; if (!t) { t = new Type{T_VEC}; t->n = n; t->el = el; } return t; }
  Type* arrT(u64 n, Type* el) { auto& t = mk["a" + std::to_string(n) + "x" + std::to_string((u64)el)]; if (!t) { t = new Type{T_ARR}; t->n = n; t->el = el; } return t; }
  Type* structT(std::vector<Type*> els, bool packed) { std::string k = packed ? "p" : "s"; for (auto x : els) k += std::to_string((u64)x) + ","; auto& t = mk[k]; if (!t) { t = new Type{T_STRUCT}; t->els = els; t->packed = packed; } return t; }
};
extern TypeCtx TC;

static Type* parseType(Lex& x, bool allowFn = false);
static Type* namedType(Module* m, sv tok) {
  sv nm = nameOf(tok);
  auto it = m->types.find(nm); if (it != m->types.end()) return it->second;
  auto tt = m->typeText.find(nm); if (tt == m->typeText.end()) throw IrError("unknown type " + std::string(nm));
  Type* t = new Type{T_STRUCT}; m->types[nm] = t;
  Lex x(tt->second, m->base + m->len, m);
  if (x.accept("opaque")) { t->k = T_OPAQUE; return t; }
  Type* r = parseType(x);
  if (r->k == T_STRUCT) { t->els = r->els; t->packed = r->packed; } else { *t = *r; }
  return t;
}
static Type* parseType(Lex& x, bool allowFn) {
  sv t = x.tok(); Type* r = nullptr;
  if (t.empty()) x.fail("type expected");
  if (t == "void") r = TC.voidT; else if (t == "ptr") { r = TC.ptrT; if (x.peek() == "addrspace") { x.tok(); x.balanced(); } }
  else if (t == "float") r = TC.fpT(32); else if (t == "double") r = TC.fpT(64); else if (t == "half" || t == "bfloat") r = TC.fpT(16);
  else if (t == "x86_fp80") r = TC.fpT(80); else if (t == "fp128") r = TC.fpT(128);
  else if (t == "label") r = TC.labelT; else if (t == "metadata") r = TC.metaT; else if (t == "token") r = TC.tokT;
  else if (t[0] == 'i' && t.size() > 1 && isdigit((unsigned char)t[1])) r = TC.intT(atoi(std::string(t.substr(1)).c_str()));
  else if (t[0] == '%') r = namedType(x.m, t);
  else if (t == "[") { u64 n = strtoull(std::string(x.tok()).c_str(), 0, 10); x.expect("x"); Type* el = parseType(x); x.expect("]"); r = TC.arrT(n, el); }
  else if (t == "<") {
    if (x.peek() == "{") { x.tok(); std::vector<Type*> e; if (!x.accept("}")) { do e.push_back(parseType(x)); while (x.accept(",")); x.expect("}"); } x.expect(">"); r = TC.structT(e, true); }
    else { sv n = x.tok(); if (n == "vscale") x.fail("scalable vector"); x.expect("x"); Type* el = parseType(x); x.expect(">"); r = TC.vecT(strtoull(std::string(n).c_str(), 0, 10), el); }
  }
  else if (t == "{") { std::vector<Type*> e; if (!x.accept("}")) { do e.push_back(parseType(x)); while (x.accept(",")); x.expect("}"); } r = TC.structT(e, false); }
  else x.fail("bad type '" + std::string(t) + "'");
  if (allowFn && x.peek() == "(") { x.balanced(); Type* f = new Type{T_FUNC}; f->el = r; return f; }
  return r;
}
static bool typeStart(sv t) {
  if (t.empty()) return false;
  if (t == "void" || t == "ptr" || t == "float" || t == "double" || t == "half" || t == "bfloat" || t == "x86_fp80" || t == "fp128" || t == "label" || t == "metadata" || t == "token" || t == "[" || t == "<" || t == "{") return true;
  if (t[0] == '%') return true;
  if (t[0] == 'i' && t.size() > 1) { for (size_t i = 1; i < t.size(); i++) if (!isdigit((unsigned char)t[i])) return false; return true; }
  return false;
}
struct Attrs { Type* byval = nullptr; bool sret = false; u8 ext = 0; u64 align = 0; };
// skip attributes before a type (ret attrs / cconv) or after a type (param attrs)
static bool operandStart(sv t) {
  if (t.empty()) return true;
  char c = t[0];
  if (c == '%' || c == '@' || c == '[' || c == '{' || c == '<' || c == '-' || c == '!' || isdigit((unsigned char)c) || c == ',' || c == ')' ) return true;
  if (c == 'c' && t.size() > 1 && t[1] == '"') return true;
  static const char* kw[] = {"null", "undef", "poison", "zeroinitializer", "true", "false", "none", "getelementptr", "ptrtoint", "ptrtoaddr", "inttoptr", "bitcast", "trunc", "zext", "sext", "sub", "add", "mul", "xor", "and", "or", "shl", "lshr", "select", "icmp", "asm", "blockaddress", "dso_local_equivalent", "no_cfi", "splat", "metadata", "addrspacecast", "..."};
  for (auto k : kw) if (t == k) return true;
  return false;
}
static void paramAttrs(Lex& x, Attrs& a) {
  for (;;) {
    const char* s = x.p; sv t = x.tok();
    if (operandStart(t)) { x.p = s; return; }
    if (t == "byval" || t == "sret" || t == "elementtype" || t == "inalloca" || t == "preallocated" || t == "byref") { x.expect("("); Type* ty = parseType(x); x.expect(")"); if (t == "byval") a.byval = ty; if (t == "sret") a.sret = true; continue; }
    if (t == "zeroext") a.ext = 1; else if (t == "signext") a.ext = 2;
    if (t == "align") { if (x.peek() == "(") x.balanced(); else { a.align = strtoull(std::string(x.tok()).c_str(), 0, 10); } continue; }
    if (x.peekc() == '(') x.balanced();
  }
}
static u8 retAttrs(Lex& x) { // cconv, ret attrs before type
  u8 ext = 0;
  for (;;) {
    const char* s = x.p; sv t = x.tok();
    if (typeStart(t)) { x.p = s; return ext; }
    if (t.empty()) x.fail("type expected");
    if (t == "zeroext") ext = 1; if (t == "signext") ext = 2;
    if (t == "align" || t == "cc" || t == "addrspace") { if (x.peekc() == '(') x.balanced(); else x.tok(); continue; }
    if (t[0] == 'c' && t.size() > 2 && t[1] == 'c' && isdigit((unsigned char)t[2])) continue;
    if (x.peekc() == '(') x.balanced();
  }
}

// ---------------------------------------------------------------- constants
static u128 parseU128(sv t) {
  bool neg = t[0] == '-'; if (neg) t.remove_prefix(1); u128 r = 0; for (char c : t) r = r * 10 + (c - '0'); return neg ? (u128)0 - r : r;
}
static u128 constScalar(Lex& x, Type* ty);
static void constSlots(Lex& x, Type* ty, std::vector<Val>& out);
static std::pair<Type*, u128> typedConst(Lex& x) { Type* t = parseType(x); Attrs a; u128 v = constScalar(x, t); return {t, v}; }
static u128 gepConst(Lex& x) {
  for (;;) { const char* s = x.p; sv t = x.tok(); if (t == "(") break; if (t == "inrange") { if (x.peekc() == '(') x.balanced(); continue; } (void)s; }
  Type* bt = parseType(x); x.expect(","); 
  auto base = typedConst(x); u64 a = (u64)base.second; Type* cur = bt; bool first = true;
  while (x.accept(",")) {
    x.accept("inrange");
    auto ix = typedConst(x); i64 v = sext64((u64)ix.second, ix.first->w);
    if (first) { cur->layout(); a += v * (i64)cur->size; first = false; }
    else if (cur->k == T_STRUCT) { cur->layout(); a += cur->offs[v]; cur = cur->els[v]; }
    else { cur->layout(); cur->el->layout(); a += v * (i64)cur->el->size; cur = cur->el; }
  }
  x.expect(")"); return a;
}
static u128 constScalar(Lex& x, Type* ty) {
  sv t = x.tok(); unsigned w = ty->k == T_PTR ? 64 : ty->w;
  if (t.empty()) x.fail("const expected");
  if (t[0] == '@') return L.symAddr(x.m, nameOf(t));
  if (t == "null" || t == "undef" || t == "poison" || t == "zeroinitializer" || t == "false" || t == "none") return 0;
  if (t == "true") return 1;
  if (ty->k == T_FP && (isdigit((unsigned char)t[0]) || t[0] == '-')) {
    std::string s(t);
    if (s.size() > 2 && s[0] == '0' && s[1] == 'x') {
      if (isxdigit((unsigned char)s[2])) { u64 b = strtoull(s.c_str() + 2, 0, 16); if (w == 32) { double d; memcpy(&d, &b, 8); float f = (float)d; if (d != d) { u32 fb; memcpy(&fb, &f, 4); u64 man = (b >> 29) & 0x7fffff; return (u128)(((b >> 63) << 31) | 0x7f800000u | man); } u32 fb; memcpy(&fb, &f, 4); return fb; } return b; }
      if (s[2] == 'H' || s[2] == 'R') return strtoull(s.c_str() + 3, 0, 16);
      return 0;
    }
    double d = strtod(s.c_str(), 0); if (w == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return b; } u64 b; memcpy(&b, &d, 8); return b;
  }
  if (isdigit((unsigned char)t[0]) || t[0] == '-') return parseU128(t) & maskw(w);
  if (ty->k == T_FP && (t == "nan" || t == "inf" )) x.fail("fp const");
  if (t[0] == 'f' && t.size() > 3 && t[1] == '0' && t[2] == 'x') return strtoull(std::string(t.substr(3)).c_str(), 0, 16);
  if (t[0] == 'u' && t.size() > 3 && t[1] == '0' && t[2] == 'x') return strtoull(std::string(t.substr(3)).c_str(), 0, 16);
  if (t == "getelementptr") return gepConst(x);
  if (t == "ptrtoint" || t == "ptrtoaddr" || t == "inttoptr" || t == "bitcast" || t == "trunc" || t == "addrspacecast" || t == "zext" || t == "sext") {
    while (!x.accept("(")) x.tok();
    auto v = typedConst(x); x.expect("to"); Type* d = parseType(x); x.expect(")");
    unsigned dw = d->k == T_PTR ? 64 : d->w, sw = v.first->k == T_PTR ? 64 : v.first->w;
    if (t == "sext") return (u128)sextw(v.second, sw) & maskw(dw);
    return v.second & maskw(dw);
  }
  if (t == "add" || t == "sub" || t == "xor" || t == "and" || t == "or" || t == "mul" || t == "shl" || t == "lshr") {
    while (!x.accept("(")) x.tok();
    auto a = typedConst(x); x.expect(","); auto b = typedConst(x); x.expect(")");
    Op o = t == "add" ? O_ADD : t == "sub" ? O_SUB : t == "xor" ? O_XOR : t == "and" ? O_AND : t == "or" ? O_OR : t == "mul" ? O_MUL : t == "shl" ? O_SHL : O_LSHR;
    return ExprPool::fold(o, a.second, b.second, w);
  }
  if (t == "dso_local_equivalent" || t == "no_cfi") return constScalar(x, ty);
  if (t == "blockaddress") { x.balanced(); return 0; }
  x.fail("bad const '" + std::string(t) + "'");
}
static void constBytes(Lex& x, Type* ty, u8* out);
static void constSlots(Lex& x, Type* ty, std::vector<Val>& out) {
  ty->slotify();
  if (ty->k == T_INT || ty->k == T_PTR || ty->k == T_FP) { out.push_back(cval(constScalar(x, ty), ty->k == T_PTR ? 64 : ty->w)); return; }
  sv t = x.peek();
  if (t == "zeroinitializer" || t == "undef" || t == "poison" || t == "none") { x.tok(); for (auto& s : ty->slots) out.push_back(cval(0, s.w)); return; }
  if (t == "splat") { x.tok(); x.expect("("); auto v = typedConst(x); x.expect(")"); for (auto& s : ty->slots) out.push_back(cval(v.second, s.w)); return; }
  if (t[0] == 'c') { sv s = x.tok(); s = s.substr(1); std::string u; { sv q = s.substr(1, s.size() - 2); for (size_t i = 0; i < q.size(); i++) if (q[i] == '\\') { if (q[i + 1] == '\\') { u += '\\'; i++; } else { u += (char)strtol(std::string(q.substr(i + 1, 2)).c_str(), 0, 16); i += 2; } } else u += q[i]; } for (char c : u) out.push_back(cval((u8)c, 8)); return; }
  if (ty->k == T_TOKEN || ty->k == T_META) { x.tok(); return; }
  sv open = x.tok(); bool pk = false;
  if (open == "<" && x.peek() == "{") { x.tok(); pk = true; open = "{"; }
  sv close = open == "[" ? "]" : open == "{" ? "}" : open == "<" ? ">" : "";
  if (close.empty()) x.fail("bad aggregate const");
  if (!x.accept(close)) { do { Type* et = parseType(x); constSlots(x, et, out); } while (x.accept(",")); x.expect(close); }
  if (pk) x.expect(">");
}
static void constBytes(Lex& x, Type* ty, u8* out) {
  ty->layout();
  if (ty->k == T_INT || ty->k == T_PTR || ty->k == T_FP) { u128 v = constScalar(x, ty); u64 n = ty->k == T_INT ? (ty->w + 7) / 8 : ty->size; for (u64 i = 0; i < n && i < 16; i++) out[i] = (u8)(v >> (8 * i)); return; }
  sv t = x.peek();
  if (t == "zeroinitializer" || t == "undef" || t == "poison" || t == "none") { x.tok(); return; }
  if (t[0] == 'c' && t.size() > 1) { std::vector<Val> v; constSlots(x, ty, v); for (size_t i = 0; i < v.size(); i++) out[i] = (u8)v[i].c; return; }
  if (ty->k == T_VEC) { std::vector<Val> v; constSlots(x, ty, v); for (size_t i = 0; i < v.size(); i++) { auto& s = ty->slots[i]; for (int j = 0; j < s.w / 8; j++) out[s.off + j] = (u8)((v[i].e ? v[i].e->k : (u128)v[i].c) >> (8 * j)); } return; }
  sv open = x.tok(); bool pk = false;
  if (open == "<" && x.peek() == "{") { x.tok(); pk = true; open = "{"; }
  sv close = open == "[" ? "]" : open == "{" ? "}" : "";
  if (close.empty()) x.fail("bad aggregate init '" + std::string(open) + "'");
  u64 i = 0;
  if (!x.accept(close)) { do { Type* et = parseType(x); et->layout(); u64 o = ty->k == T_STRUCT ? ty->offs[i] : i * ty->el->size; constBytes(x, et, out + o); i++; } while (x.accept(",")); x.expect(close); }
  if (pk) x.expect(">");
}

// ---------------------------------------------------------------- module index
inline void Linker::load(const std::string& path) {
  int fd = open(path.c_str(), O_RDONLY); if (fd < 0) throw IrError("cannot open " + path);
  struct stat st; fstat(fd, &st);
  Module* m = new Module; m->path = path; m->len = st.st_size;
  m->base = (const char*)mmap(nullptr, st.st_size + 1, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
  mods.push_back(m);
  const char* p = m->base; const char* e = p + m->len;
  while (p < e) {
    const char* nl = (const char*)memchr(p, '\n', e - p); if (!nl) nl = e;
    if (*p == 'd' && nl - p > 7 && (!memcmp(p, "define ", 7) || !memcmp(p, "declare ", 8))) {
      bool def = p[2] == 'f';
      const char* at = (const char*)memchr(p, '@', nl - p);
      // skip '@' inside attributes is not possible before the name
      Lex x(at, e, m); sv nm = nameOf(x.tok());
      Function* f = new Function; f->name = nm; f->mod = m; f->decl = !def; f->text = p;
      sv head(p, at - p);
      if (head.find(" internal ") != sv::npos || head.find(" private ") != sv::npos) f->linkage = 1;
      else if (head.find("weak") != sv::npos || head.find("linkonce") != sv::npos || head.find("available_externally") != sv::npos) f->linkage = 2;
      if (def) {
        const char* q = nl; for (;;) { q = (const char*)memmem(q, e - q, "\n}", 2); if (!q) { q = e; break; } if (q + 2 >= e || q[2] == '\n') break; q += 2; }
        f->end = q + 1; nl = q + 1;
      } else f->end = nl;
      m->lf[nm] = f;
      if (f->linkage != 1 && def) { auto it = gf.find(nm); if (it == gf.end() || (it->second->linkage == 2 && f->linkage != 2)) gf[nm] = f; }
    } else if (*p == '@') {
      Lex x(p, e, m); sv nm = nameOf(x.tok()); x.expect("=");
      Global* g = new Global; g->name = nm; g->mod = m; g->decl = false; g->cst = false; g->internal = false; g->tls = false; bool weak = false, alias = false, ifunc = false, extweak = false;
      for (;;) {
        const char* s = x.p; sv t = x.tok();
        if (t == "global") break; if (t == "constant") { g->cst = true; break; }
        if (t == "alias") { alias = true; break; } if (t == "ifunc") { ifunc = true; break; }
        if (t == "external") g->decl = true; else if (t == "extern_weak") { g->decl = true; extweak = true; } else if (t == "internal" || t == "private") g->internal = true;
        else if (t == "weak" || t == "weak_odr" || t == "linkonce" || t == "linkonce_odr" || t == "common" || t == "available_externally") weak = true;
        else if (t == "thread_local") { g->tls = true; if (x.peekc() == '(') x.balanced(); }
        else if (t == "addrspace") x.balanced();
        if (t.empty()) { x.p = s; x.fail("global header"); }
      }
      (void)weak; (void)extweak;
      if (alias || ifunc) { Alias* a = new Alias{nm, m, x.p}; m->la[nm] = a; if (!g->internal) ga.emplace(nm, a); delete g; }
      else { g->text = x.p; m->lg[nm] = g; if (!g->internal && !g->decl) gg.emplace(nm, g); }
      // multi-line initialisers do not occur in printed IR
    } else if (*p == '%') {
      Lex x(p, e, m); sv nm = nameOf(x.tok()); x.expect("="); x.expect("type"); m->typeText[nm] = x.p;
    } else if (*p == 'a' && nl - p > 11 && !memcmp(p, "attributes ", 11)) {
      int id = atoi(p + 12); sv body(p, nl - p); m->attrNounwind[id] = body.find(" nounwind") != sv::npos;
    }
    p = nl + 1;
  }
}
inline Function* Linker::findFn(Module* m, sv name) {
  if (m) { auto it = m->lf.find(name); if (it != m->lf.end() && !it->second->decl && it->second->linkage == 1) return it->second; }
  auto g = gf.find(name); if (g != gf.end()) return g->second;
  return nullptr;
}
inline Function* Linker::externStub(sv name) { Function* f = new Function; f->name = name; f->decl = true; gf[name] = f; return f; }
inline u64 Linker::symAddr(Module* m, sv name) {
  if (m) {
    auto lf = m->lf.find(name); if (lf != m->lf.end() && lf->second->linkage == 1) return fnAddr(lf->second);
    auto lg = m->lg.find(name); if (lg != m->lg.end() && lg->second->internal) { if (!lg->second->addr) lg->second->addr = placeGlobal(lg->second); return lg->second->addr; }
  }
  auto gfn = gf.find(name); if (gfn != gf.end()) return fnAddr(gfn->second);
  auto g = gg.find(name); if (g != gg.end()) { if (!g->second->addr) g->second->addr = placeGlobal(g->second); return g->second->addr; }
  Alias* al = nullptr; if (m) { auto a = m->la.find(name); if (a != m->la.end()) al = a->second; }
  if (!al) { auto a = ga.find(name); if (a != ga.end()) al = a->second; }
  if (al) { if (!al->done) { Lex x(al->text, al->mod->base + al->mod->len, al->mod); parseType(x, true); x.expect(","); auto v = typedConst(x); al->addr = (u64)v.second; al->done = true; } return al->addr; }
  if (m) {
    auto lf = m->lf.find(name); if (lf != m->lf.end()) { sv head(lf->second->text, lf->second->end - lf->second->text); if (name != "__cxa_thread_atexit_impl" && head.find("extern_weak") != sv::npos) return 0; return fnAddr(externStub(name)); }
    if (name == "__cxa_thread_atexit_impl" || name == "__dso_handle") return fnAddr(externStub(name)); auto lg = m->lg.find(name); if (lg != m->lg.end()) { Global* d = lg->second; gg.emplace(name, d); if (!d->addr) { const char* ls = d->text; while (ls > m->base && ls[-1] != '\n') ls--; if (sv(ls, d->text - ls).find(" extern_weak ") != sv::npos) return 0; d->addr = placeGlobal(d); } return d->addr; }
  }
  return fnAddr(externStub(name));
}

// ---------------------------------------------------------------- function decoding
struct Decoder {
  Function* f; Lex x; std::unordered_map<sv, int> regs; std::unordered_map<sv, Type*> regTy; std::unordered_map<std::string, int> labels; Module* m;
  Decoder(Function* f_) : f(f_), x(f_->text, f_->end, f_->mod), m(f_->mod) {}
  int alloc(Type* t) { int r = f->nregs; f->nregs += std::max<u32>(1, t->nslots()); return r; }
  int reg(sv tok, Type* t) { tok.remove_prefix(1); auto it = regs.find(tok); if (it != regs.end()) return it->second; int r = alloc(t); regs[tok] = r; return r; }
  int konst(const std::vector<Val>& v) { int i = (int)f->consts.size(); for (auto& s : v) f->consts.push_back(s); if (v.empty()) f->consts.push_back({0, nullptr}); return ~i; }
  int operand(Type* t) {
    char c = x.peekc();
    if (c == '%') return reg(x.tok(), t);
    std::vector<Val> v; if (t->k == T_META) { // metadata operand: skip to , or ) at depth 0
      int d = 0; for (;;) { const char* s = x.p; sv k = x.tok(); if (k == "(" || k == "{") d++; if (k == ")" || k == "}") { if (!d) { x.p = s; break; } d--; } if (k == "," && !d) { x.p = s; break; } if (k.empty()) break; } return konst(v); }
    constSlots(x, t, v); return konst(v);
  }
  int label(const std::string& n) { auto it = labels.find(n); if (it != labels.end()) return it->second; int i = (int)f->blocks.size(); f->blocks.push_back({n}); labels[n] = i; return i; }
  int labelOp() { x.expect("label"); return label(unq(x.tok())); }
  std::pair<Type*, int> typedOp() { Type* t = parseType(x); Attrs a; paramAttrs(x, a); return {t, operand(t)}; }
  Instr& emit(IOp op) { f->code.push_back(Instr{op, 0, 0, 0, 0, 0, 0, 0, nullptr}); return f->code.back(); }
  void header() {
    x.tok(); // define/declare
    retAttrs2();
    f->ret = parseType(x);
    x.tok(); // name
    x.expect("(");
    int un = 0;
    if (!x.accept(")")) do {
      if (x.accept("...")) { f->vararg = true; break; }
      Param p; p.ty = parseType(x); Attrs a; paramAttrs2(a); p.byval = a.byval; p.ext = a.ext;
      if (x.peekc() == '%') { sv t = x.tok(); p.name = std::string(t); p.reg = reg(t, p.ty); if (t.size() > 1 && isdigit((unsigned char)t[1])) un = atoi(std::string(t.substr(1)).c_str()) + 1; } else { p.reg = alloc(p.ty); un++; }
      f->params.push_back(p);
    } while (x.accept(","));
    if (x.peek() == ")") x.tok();
    unnamed = un;
    // trailing attrs to '{' or eol
    const char* s = x.p; const char* q = s; while (q < f->end && *q != '\n') q++;
    sv tail(s, q - s);
    size_t h = tail.find('#'); if (h != sv::npos) { int id = atoi(std::string(tail.substr(h + 1, 8)).c_str()); f->nounwind = m->attrNounwind[id]; }
    f->hasPers = tail.find(" personality ") != sv::npos;
    x.p = q;
  }
  int unnamed = 0;
  void paramAttrs2(Attrs& a) { paramAttrs(x, a); }
  void retAttrs2() { // linkage, visibility, cconv, attrs
    for (;;) { const char* s = x.p; sv t = x.tok(); if (typeStart(t)) { x.p = s; return; } if (t == "align" || t == "cc") { if (x.peekc() == '(') x.balanced(); else x.tok(); continue; } if (x.peekc() == '(') x.balanced(); if (t.empty()) x.fail("ret type"); }
  }
  void decode() {
    f->decoded = true;
    header();
    if (f->decl) return;
    bool first = true;
    while (x.p < f->end) {
      // at line start?
      while (x.p < f->end && (*x.p == '\n' || *x.p == '\r')) x.p++;
      if (x.p >= f->end || *x.p == '}') break;
      if (*x.p == ';') { x.skipLine(); continue; }
      if (*x.p != ' ' && *x.p != '\t') { // label
        const char* s = x.p; std::string nm;
        if (*s == '"') { const char* q = s + 1; while (*q != '"') q++; nm = unq(sv(s, q + 1 - s)); } else { const char* q = s; while (*q != ':') q++; nm = std::string(s, q - s); }
        int b = label(nm); f->blocks[b].start = (int)f->code.size(); first = false; x.skipLine(); cur = b; continue;
      }
      const char* q = x.p; while (q < f->end && (*q == ' ' || *q == '\t')) q++;
      if (q >= f->end || *q == '\n' || *q == ';' || *q == '#') { x.p = q; x.skipLine(); continue; }
      if (first) { int b = label(std::to_string(unnamed)); f->blocks[b].start = 0; first = false; cur = b; }
      x.p = q;
      instr();
      x.skipLine();
    }
    entry = 0;
    // ensure entry block is the one with start 0
    for (size_t i = 0; i < f->blocks.size(); i++) if (f->blocks[i].start < 0) throw IrError("undefined label " + f->blocks[i].name + " in " + std::string(f->name));
  }
  int cur = 0, entry = 0;
  void skipFlags() {
    for (;;) { const char* s = x.p; sv t = x.tok();
      if (t == "nuw" || t == "nsw" || t == "exact" || t == "disjoint" || t == "nneg" || t == "samesign" || t == "inbounds" || t == "nusw" || t == "fast" || t == "nnan" || t == "ninf" || t == "nsz" || t == "arcp" || t == "contract" || t == "afn" || t == "reassoc") continue;
      if (t == "inrange") { x.balanced(); continue; }
      x.p = s; return; }
  }
  unsigned ew(Type* t) { if (t->k == T_VEC) return ew(t->el); return t->k == T_PTR ? 64 : t->w; }
  void call(sv dstTok, bool invoke) {
    CallInfo* ci = new CallInfo;
    skipFlags();
    ci->retExt = retAttrs(x);
    Type* rt = parseType(x, true); if (rt->k == T_FUNC) rt = rt->el; ci->ret = rt;
    sv pk = x.peek();
    if (pk == "addrspace") { x.tok(); x.balanced(); pk = x.peek(); }
    if (pk == "asm") { ci->isAsm = true; x.tok(); while (x.peekc() != '"') x.tok(); ci->asmText = unq(x.tok()); x.expect(","); ci->asmText += " | " + unq(x.tok()); }
    else if (pk[0] == '%') { ci->indirect = true; ci->calleeReg = reg(x.tok(), TC.ptrT); }
    else if (pk[0] == '@') { ci->name = nameOf(x.tok()); }
    else { u128 a = constScalar(x, TC.ptrT); ci->calleeAddr = (u64)a; }
    x.expect("(");
    if (!x.accept(")")) { do {
      Type* t = parseType(x); Attrs a; 
      if (t->k != T_META) paramAttrs(x, a);
      int r = operand(t); ci->args.push_back({r, t, a.byval, a.ext}); } while (x.accept(",")); x.expect(")"); }
    // fn attrs
    for (;;) { const char* s = x.p; 
      // stop at newline for call; invoke continues to 'to'
      const char* q = x.p; while (q < f->end && (*q == ' ' || *q == '\t')) q++;
      if (!invoke && (q >= f->end || *q == '\n' || *q == ',' )) { x.p = q; break; }
      sv t = x.tok(); if (t.empty()) break;
      if (t[0] == '#') { int id = atoi(std::string(t.substr(1)).c_str()); if (m->attrNounwind[id]) ci->nounwind = true; continue; }
      if (t == "nounwind") { ci->nounwind = true; continue; }
      if (t == "[") { x.p = s; x.ws(); x.balanced(); continue; }
      if (t == "to") { x.p = s; break; }
      if (t == "!" || t[0] == '!') { x.p = s; break; }
      if (x.peekc() == '(' ) x.balanced();
    }
    if (invoke) { x.expect("to"); ci->normal = labelOp(); x.expect("unwind"); ci->unwind = labelOp(); }
    int d = -1; if (rt->nslots()) d = dstTok.empty() ? alloc(rt) : reg(dstTok, rt); else if (!dstTok.empty()) d = reg(dstTok, rt);
    Instr& I = emit(I_CALL); I.dst = d; I.n = rt->nslots(); I.x = ci;
  }
  void instr() {
    sv d; sv t = x.tok();
    if (t[0] == '%') { d = t; x.expect("="); t = x.tok(); }
    if (t == "tail" || t == "musttail" || t == "notail") t = x.tok();
    if (t == "call") return call(d, false);
    if (t == "invoke") return call(d, true);
    static const std::unordered_map<sv, Op> bins = {{"add", O_ADD}, {"sub", O_SUB}, {"mul", O_MUL}, {"udiv", O_UDIV}, {"sdiv", O_SDIV}, {"urem", O_UREM}, {"srem", O_SREM}, {"shl", O_SHL}, {"lshr", O_LSHR}, {"ashr", O_ASHR}, {"and", O_AND}, {"or", O_OR}, {"xor", O_XOR}};
    auto bi = bins.find(t);
    if (bi != bins.end()) { skipFlags(); Type* ty = parseType(x); int a = operand(ty); x.expect(","); int b = operand(ty); int r = reg(d, ty); Instr& I = emit(I_BIN); I.sub = bi->second; I.w = ew(ty); I.n = ty->nslots(); I.dst = r; I.a = a; I.b = b; return; }
    static const std::unordered_map<sv, Op> fb = {{"fadd", O_FADD}, {"fsub", O_FSUB}, {"fmul", O_FMUL}, {"fdiv", O_FDIV}};
    auto fi = fb.find(t);
    if (fi != fb.end()) { skipFlags(); Type* ty = parseType(x); int a = operand(ty); x.expect(","); int b = operand(ty); int r = reg(d, ty); Instr& I = emit(I_FBIN); I.sub = fi->second; I.w = ew(ty); I.n = ty->nslots(); I.dst = r; I.a = a; I.b = b; return; }
    if (t == "fneg") { skipFlags(); Type* ty = parseType(x); int a = operand(ty); int r = reg(d, ty); Instr& I = emit(I_FNEG); I.w = ew(ty); I.n = ty->nslots(); I.dst = r; I.a = a; return; }
    if (t == "icmp" || t == "fcmp") {
      skipFlags(); sv pred = x.tok(); Type* ty = parseType(x); int a = operand(ty); x.expect(","); int b = operand(ty);
      Type* rt = ty->k == T_VEC ? TC.vecT(ty->n, TC.intT(1)) : TC.intT(1); int r = reg(d, rt);
      static const std::unordered_map<sv, int> pr = {{"eq", 0}, {"ne", 1}, {"ugt", 2}, {"uge", 3}, {"ult", 4}, {"ule", 5}, {"sgt", 6}, {"sge", 7}, {"slt", 8}, {"sle", 9}};
      static const std::unordered_map<sv, int> fp = {{"false", 0}, {"oeq", 1}, {"ogt", 2}, {"oge", 3}, {"olt", 4}, {"ole", 5}, {"one", 6}, {"ord", 7}, {"uno", 8}, {"ueq", 9}, {"ugt", 10}, {"uge", 11}, {"ult", 12}, {"ule", 13}, {"une", 14}, {"true", 15}};
      Instr& I = emit(t == "icmp" ? I_ICMP : I_FCMP); I.sub = t == "icmp" ? pr.at(pred) : fp.at(pred); I.w = ew(ty); I.n = ty->nslots(); I.dst = r; I.a = a; I.b = b; return;
    }
    static const std::unordered_map<sv, int> casts = {{"trunc", C_TRUNC}, {"zext", C_ZEXT}, {"sext", C_SEXT}, {"fptrunc", C_FPTRUNC}, {"fpext", C_FPEXT}, {"fptoui", C_FPTOUI}, {"fptosi", C_FPTOSI}, {"uitofp", C_UITOFP}, {"sitofp", C_SITOFP}, {"ptrtoint", C_ZEXT}, {"ptrtoaddr", C_ZEXT}, {"inttoptr", C_ZEXT}};
    auto ca = casts.find(t);
    if (ca != casts.end()) {
      skipFlags(); Type* st = parseType(x); int a = operand(st); x.expect("to"); Type* dt = parseType(x); int r = reg(d, dt);
      int k = ca->second; if ((t == "ptrtoint" || t == "inttoptr") && ew(dt) < ew(st)) k = C_TRUNC;
      Instr& I = emit(I_CAST); I.sub = k; I.w = ew(dt); I.n = dt->nslots(); I.dst = r; I.a = a; I.b = ew(st); return;
    }
    if (t == "bitcast" || t == "addrspacecast") { Type* st = parseType(x); int a = operand(st); x.expect("to"); Type* dt = parseType(x); int r = reg(d, dt); Instr& I = emit(I_BITCAST); I.dst = r; I.a = a; I.w = ew(dt); I.n = dt->nslots(); I.b = ew(st); I.c = st->nslots(); return; }
    if (t == "freeze") { Type* ty = parseType(x); int a = operand(ty); int r = reg(d, ty); Instr& I = emit(I_COPY); I.dst = r; I.a = a; I.n = ty->nslots(); return; }
    if (t == "select") { skipFlags(); auto c = typedOp(); x.expect(","); auto a = typedOp(); x.expect(","); auto b = typedOp(); int r = reg(d, a.first); Instr& I = emit(I_SELECT); I.dst = r; I.a = c.second; I.b = a.second; I.c = b.second; I.n = a.first->nslots(); I.sub = c.first->k == T_VEC; I.x = a.first; return; }
    if (t == "load") {
      const char* s; for (;;) { s = x.p; sv k = x.tok(); if (k == "atomic" || k == "volatile") continue; x.p = s; break; }
      Type* ty = parseType(x); x.expect(","); auto a = typedOp(); int r = reg(d, ty); Instr& I = emit(I_LOAD); I.dst = r; I.a = a.second; I.n = ty->nslots(); I.w = I.n == 1 ? ew(ty) : 0; I.x = ty; return;
    }
    if (t == "store") {
      const char* s; for (;;) { s = x.p; sv k = x.tok(); if (k == "atomic" || k == "volatile") continue; x.p = s; break; }
      auto v = typedOp(); x.expect(","); auto a = typedOp(); Instr& I = emit(I_STORE); I.a = a.second; I.b = v.second; I.n = v.first->nslots(); I.x = v.first; return;
    }
    if (t == "getelementptr") {
      skipFlags(); Type* bt = parseType(x); x.expect(","); Type* pt = parseType(x); if (pt->k == T_VEC) { unsupported(d, pt, "vector gep"); return; } Attrs at; paramAttrs(x, at); int a = operand(pt);
      GepInfo* g = new GepInfo; Type* cur = bt; bool first = true;
      while (x.peek() == ",") {
        const char* s = x.p; x.tok(); if (x.peekc() == '!') { x.p = s; break; }
        Type* it = parseType(x); int o = operand(it); bool k = o < 0; i64 v = 0; if (k) v = sext64(f->consts[~o].c, it->w);
        if (it->k == T_VEC) { unsupported(d, pt, "vector gep"); return; }
        if (first) { cur->layout(); if (k) g->base += v * (i64)cur->size; else g->terms.push_back({o, (i64)cur->size, (u16)it->w}); first = false; }
        else if (cur->k == T_STRUCT) { cur->layout(); g->base += cur->offs[v]; cur = cur->els[v]; }
        else { cur->layout(); cur->el->layout(); if (k) g->base += v * (i64)cur->el->size; else g->terms.push_back({o, (i64)cur->el->size, (u16)it->w}); cur = cur->el; }
      }
      int r = reg(d, TC.ptrT); Instr& I = emit(I_GEP); I.dst = r; I.a = a; I.x = g; return;
    }
    if (t == "alloca") {
      x.accept("inalloca"); x.accept("swifterror"); Type* ty = parseType(x); ty->layout(); int cnt; { std::vector<Val> one{{1, nullptr}}; cnt = konst(one); } u64 al = ty->align; unsigned cw = 64;
      while (x.accept(",")) { if (x.accept("align")) { al = std::max<u64>(1, strtoull(std::string(x.tok()).c_str(), 0, 10)); } else if (x.peekc() == '!') break; else if (x.peek() == "addrspace") { x.tok(); x.balanced(); } else { auto c = typedOp(); cnt = c.second; cw = c.first->w; } }
      int r = reg(d, TC.ptrT); Instr& I = emit(I_ALLOCA); I.dst = r; I.a = cnt; I.x = ty; I.n = (u32)al; I.w = cw; return;
    }
    if (t == "extractvalue") {
      auto a = typedOp(); Type* cur = a.first; u32 off = 0; 
      while (x.peek() == ",") { const char* s = x.p; x.tok(); if (!isdigit((unsigned char)x.peekc())) { x.p = s; break; } int i = atoi(std::string(x.tok()).c_str()); cur->slotify(); off += cur->slotIdx[i]; cur = cur->k == T_STRUCT ? cur->els[i] : cur->el; }
      int r = reg(d, cur); Instr& I = emit(I_COPY); I.dst = r; I.n = cur->nslots(); I.a = a.second; I.sub = 1; I.b = off; return;
    }
    if (t == "insertvalue") {
      auto a = typedOp(); x.expect(","); auto v = typedOp(); Type* cur = a.first; u32 off = 0;
      while (x.peek() == ",") { const char* s = x.p; x.tok(); if (!isdigit((unsigned char)x.peekc())) { x.p = s; break; } int i = atoi(std::string(x.tok()).c_str()); cur->slotify(); off += cur->slotIdx[i]; cur = cur->k == T_STRUCT ? cur->els[i] : cur->el; }
      int r = reg(d, a.first); Instr& I = emit(I_INSERTV); I.dst = r; I.n = a.first->nslots(); I.a = a.second; I.b = v.second; I.c = off; I.w = cur->nslots(); return;
    }
    if (t == "extractelement") { auto a = typedOp(); x.expect(","); auto i = typedOp(); int r = reg(d, a.first->el); Instr& I = emit(I_EXTRACTE); I.dst = r; I.a = a.second; I.b = i.second; I.n = a.first->n; I.w = ew(a.first); I.c = i.first->w; return; }
    if (t == "insertelement") { auto a = typedOp(); x.expect(","); auto v = typedOp(); x.expect(","); auto i = typedOp(); int r = reg(d, a.first); Instr& I = emit(I_INSERTE); I.dst = r; I.a = a.second; I.b = v.second; I.c = i.second; I.n = a.first->n; I.w = ew(a.first); return; }
    if (t == "shufflevector") {
      auto a = typedOp(); x.expect(","); auto b = typedOp(); x.expect(","); Type* mt = parseType(x); IdxInfo* ii = new IdxInfo; 
      sv pk = x.peek(); if (pk == "zeroinitializer") { x.tok(); ii->idx.assign(mt->n, 0); } else if (pk == "undef" || pk == "poison") { x.tok(); ii->idx.assign(mt->n, 0); }
      else { std::vector<Val> mv; constSlots(x, mt, mv); for (auto& v : mv) ii->idx.push_back((int)v.c); }
      Type* rt = TC.vecT(mt->n, a.first->el); int r = reg(d, rt); Instr& I = emit(I_SHUFFLE); I.dst = r; I.a = a.second; I.b = b.second; I.n = a.first->n; I.x = ii; return;
    }
    if (t == "phi") {
      skipFlags(); Type* ty = parseType(x); Phi ph; ph.n = ty->nslots(); ph.dst = reg(d, ty);
      do { if (x.peekc() == '!') break; x.expect("["); int s = operand(ty); x.expect(","); int b = label(unq(x.tok())); x.expect("]"); ph.edges.push_back({b, s}); } while (x.accept(","));
      f->blocks[cur].phis.push_back(ph); f->blocks[cur].start = (int)f->code.size(); return;
    }
    if (t == "br") {
      if (x.peek() == "label") { int b = labelOp(); Instr& I = emit(I_BR); I.a = b; return; }
      auto c = typedOp(); x.expect(","); int a = labelOp(); x.expect(","); int b = labelOp(); Instr& I = emit(I_CBR); I.a = c.second; I.b = a; I.c = b; return;
    }
    if (t == "switch") {
      auto v = typedOp(); x.expect(","); SwitchInfo* si = new SwitchInfo; si->def = labelOp(); x.expect("[");
      while (!x.accept("]")) { Type* ty = parseType(x); u128 k = constScalar(x, ty); x.expect(","); int b = labelOp(); si->cases.push_back({k, b}); si->fast[(u64)k] = b; }
      Instr& I = emit(I_SWITCH); I.a = v.second; I.w = ew(v.first); I.x = si; return;
    }
    if (t == "ret") { Type* ty = parseType(x); int a = 0; if (ty->k != T_VOID) a = operand(ty); Instr& I = emit(I_RET); I.a = a; I.n = ty->nslots(); return; }
    if (t == "unreachable") { emit(I_UNREACHABLE); return; }
    if (t == "resume") { auto v = typedOp(); Instr& I = emit(I_RESUME); I.a = v.second; return; }
    if (t == "landingpad") {
      Type* ty = parseType(x); LPInfo* lp = new LPInfo;
      for (;;) {
        const char* s = x.p; sv k = x.tok();
        if (k == "cleanup") { lp->cleanup = true; continue; }
        if (k == "catch") { auto v = typedConst(x); lp->cl.push_back({false, {(u64)v.second}}); continue; }
        if (k == "filter") { Type* at = parseType(x); std::vector<Val> vs; constSlots(x, at, vs); LPInfo::Clause c{true, {}}; for (auto& v : vs) c.tis.push_back(v.c); lp->cl.push_back(c); continue; }
        x.p = s; break;
      }
      int r = reg(d, ty); Instr& I = emit(I_LANDINGPAD); I.dst = r; I.x = lp; return;
    }
    if (t == "cmpxchg") {
      x.accept("weak"); x.accept("volatile"); auto p = typedOp(); x.expect(","); auto c = typedOp(); x.expect(","); auto n = typedOp();
      Type* rt = TC.structT({c.first, TC.intT(1)}, false); int r = reg(d, rt); Instr& I = emit(I_CMPXCHG); I.dst = r; I.a = p.second; I.b = c.second; I.c = n.second; I.w = ew(c.first); return;
    }
    if (t == "atomicrmw") {
      x.accept("volatile"); sv op = x.tok(); auto p = typedOp(); x.expect(","); auto v = typedOp(); int r = reg(d, v.first);
      static const std::unordered_map<sv, int> ops = {{"add", O_ADD}, {"sub", O_SUB}, {"and", O_AND}, {"or", O_OR}, {"xor", O_XOR}, {"xchg", 100}, {"max", 101}, {"min", 102}, {"umax", 103}, {"umin", 104}, {"nand", 105}};
      auto it = ops.find(op); if (it == ops.end()) { unsupported(d, v.first, "atomicrmw " + std::string(op)); return; }
      Instr& I = emit(I_ATOMICRMW); I.dst = r; I.a = p.second; I.b = v.second; I.sub = it->second; I.w = ew(v.first); return;
    }
    if (t == "fence") { emit(I_FENCE); return; }
    unsupported(d, nullptr, "instruction " + std::string(t));
  }
  void unsupported(sv d, Type* ty, const std::string& w) { if (!d.empty() && ty) reg(d, ty); Instr& I = emit(I_UNSUPPORTED); I.x = new StrInfo{w}; if (!d.empty() && !ty) throw IrError("unsupported " + w); }
};
