// Hash-consed bit-vector expressions.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <deque>
#include <memory>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 {
  O_CONST, O_VAR, O_EXTRACT, O_CONCAT, O_ZEXT, O_SEXT,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR,
  O_AND, O_OR, O_XOR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  // floating point (IEEE), operands/results as bit patterns
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FLT, O_FLE, O_FEQ, O_FTOF, O_STOF, O_UTOF, O_FTOS, O_FTOU
};

struct Expr {
  Op op; u16 w; u32 id; u32 hash;
  u32 aux;               // extract offset / var id / fp source width
  const Expr *a, *b, *c;
  u128 k;                // constant value
  u64 lo, hi;            // unsigned bounds (valid for w<=64)
  const std::vector<u32>* sup; // sorted var ids
  mutable u64 ep; mutable u128 ev; // evaluation cache
};
typedef const Expr* E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s) - s); }
static inline i64 sext64(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 s = 1ull << (w - 1); v &= mask64(w); return (i64)((v ^ s) - s); }

struct VarInfo { std::string name; u16 w; };

struct ExprPool {
  std::vector<VarInfo> vars;
  std::vector<E> table; size_t count = 0;
  std::deque<Expr> arena;
  std::unordered_map<std::string, const std::vector<u32>*> supIntern;
  std::vector<u32> emptySup;
  u64 epoch = 0;
  E T, F;
  ExprPool() { table.resize(1 << 16); T = cst(1, 1); F = cst(0, 1); }

  const std::vector<u32>* internSup(const std::vector<u32>& v) {
    if (v.empty()) return &emptySup;
    std::string k((const char*)v.data(), v.size() * 4);
    auto it = supIntern.find(k);
    if (it != supIntern.end()) return it->second;
    auto* p = new std::vector<u32>(v);
    supIntern[k] = p; return p;
  }
  const std::vector<u32>* mergeSup(E a, E b, E c) {
    const std::vector<u32>* s = &emptySup;
    for (E x : {a, b, c}) if (x && !x->sup->empty()) {
      if (s == x->sup || s->empty()) { s = x->sup; continue; }
      if (std::includes(s->begin(), s->end(), x->sup->begin(), x->sup->end())) continue;
      std::vector<u32> m; std::set_union(s->begin(), s->end(), x->sup->begin(), x->sup->end(), std::back_inserter(m));
      s = internSup(m);
    }
    return s;
  }
  void grow() {
    std::vector<E> old; old.swap(table); table.resize(old.size() * 2);
    for (E e : old) if (e) { size_t i = e->hash & (table.size() - 1); while (table[i]) i = (i + 1) & (table.size() - 1); table[i] = e; }
  }
  E raw(Op op, u16 w, E a = nullptr, E b = nullptr, E c = nullptr, u32 aux = 0, u128 k = 0) {
    u64 h = op * 0x9E3779B97F4A7C15ull + w * 0x85EBCA6Bull;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix(aux); mix((u64)k); mix((u64)(k >> 64));
    u32 hh = (u32)h;
    size_t i = hh & (table.size() - 1);
    while (E e = table[i]) {
      if (e->hash == hh && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->aux == aux && e->k == k) return e;
      i = (i + 1) & (table.size() - 1);
    }
    Expr x; x.op = op; x.w = w; x.id = (u32)count; x.hash = hh; x.aux = aux; x.a = a; x.b = b; x.c = c; x.k = k; x.ep = 0; x.ev = 0;
    if (op == O_VAR) { std::vector<u32> s{aux}; x.sup = internSup(s); } else x.sup = mergeSup(a, b, c);
    bounds(x);
    arena.push_back(x); E e = &arena.back(); table[i] = e; count++;
    if (count * 2 > table.size()) grow();
    return e;
  }
  static u64 fill(u64 v) { v |= v >> 1; v |= v >> 2; v |= v >> 4; v |= v >> 8; v |= v >> 16; v |= v >> 32; return v; }
  void bounds(Expr& x) {
    x.lo = 0; x.hi = x.w >= 64 ? ~0ull : mask64(x.w);
    if (x.w > 64) return;
    u64 m = mask64(x.w);
    switch (x.op) {
      case O_CONST: x.lo = x.hi = (u64)x.k; break;
      case O_ZEXT: x.lo = x.a->lo; x.hi = x.a->hi; break;
      case O_EXTRACT: if (x.a->w <= 64) { u64 h = x.a->hi >> x.aux; if (x.aux + x.w >= x.a->w || h <= m) { x.hi = h; x.lo = x.a->lo >> x.aux; } } break;
      case O_CONCAT: x.lo = (x.a->lo << x.b->w) | x.b->lo; x.hi = (x.a->hi << x.b->w) | x.b->hi; break;
      case O_AND: x.hi = std::min(x.a->hi, x.b->hi); break;
      case O_OR: x.hi = std::min(m, fill(x.a->hi) | fill(x.b->hi)); x.lo = std::max(x.a->lo, x.b->lo); break;
      case O_XOR: x.hi = std::min(m, fill(x.a->hi) | fill(x.b->hi)); break;
      case O_ADD: { u128 s = (u128)x.a->hi + x.b->hi; if (s <= m) { x.hi = (u64)s; x.lo = x.a->lo + x.b->lo; } break; }
      case O_SUB: if (x.a->lo >= x.b->hi) { x.lo = x.a->lo - x.b->hi; x.hi = x.a->hi - x.b->lo; } break;
      case O_MUL: { u128 s = (u128)x.a->hi * x.b->hi; if (s <= m) { x.hi = (u64)s; x.lo = x.a->lo * x.b->lo; } break; }
      case O_UDIV: if (x.b->lo) { x.hi = x.a->hi / x.b->lo; x.lo = x.b->hi ? x.a->lo / x.b->hi : 0; } break;
      case O_UREM: if (x.b->lo) { x.hi = std::min(x.a->hi, x.b->hi - 1); } break;
      case O_LSHR: if (x.b->op == O_CONST && x.b->lo < 64) { x.lo = x.a->lo >> x.b->lo; x.hi = x.a->hi >> x.b->lo; } else x.hi = x.a->hi; break;
      case O_SHL: if (x.b->op == O_CONST && x.b->lo < x.w) { u128 s = (u128)x.a->hi << x.b->lo; if (s <= m) { x.hi = (u64)s; x.lo = x.a->lo << x.b->lo; } } break;
      case O_ITE: x.lo = std::min(x.b->lo, x.c->lo); x.hi = std::max(x.b->hi, x.c->hi); break;
      default: break;
    }
  }
  E cst(u128 v, unsigned w) { return raw(O_CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
  E b(bool v) { return v ? T : F; }
  E var(const std::string& n, unsigned w) { vars.push_back({n, (u16)w}); return raw(O_VAR, w, nullptr, nullptr, nullptr, (u32)vars.size() - 1); }
  static bool isC(E e) { return e->op == O_CONST; }

  E extract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (isC(a)) return cst(a->k >> off, w);
    switch (a->op) {
      case O_EXTRACT: return extract(a->a, off + a->aux, w);
      case O_CONCAT: {
        unsigned bw = a->b->w;
        if (off >= bw) return extract(a->a, off - bw, w);
        if (off + w <= bw) return extract(a->b, off, w);
        return concat(extract(a->a, 0, off + w - bw), extract(a->b, off, bw - off));
      }
      case O_ZEXT: {
        unsigned iw = a->a->w;
        if (off >= iw) return cst(0, w);
        if (off + w <= iw) return extract(a->a, off, w);
        return zext(extract(a->a, off, iw - off), w);
      }
      case O_SEXT: if (off + w <= a->a->w) return extract(a->a, off, w); if (off == 0 && w > a->a->w) return sext(a->a, w); break;
      case O_AND: case O_OR: case O_XOR: if (isC(a->b) || off == 0 || 1) return bin(a->op, extract(a->a, off, w), extract(a->b, off, w)); break;
      case O_ADD: case O_SUB: case O_MUL: if (off == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w)); break;
      case O_ITE: if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b, off, w), extract(a->c, off, w)); break;
      case O_SHL: if (isC(a->b)) { u64 s = (u64)a->b->k; if (off >= s) return s + 0 <= off ? extract(a->a, off - s, w) : nullptr; if (off + w <= s) return cst(0, w); } break;
      case O_LSHR: if (isC(a->b)) { u64 s = (u64)a->b->k; if (off + s + w <= a->w) return extract(a->a, off + s, w); } break;
      default: break;
    }
    if (a->w <= 64 && off < 64 && (a->hi >> off) == 0) return cst(0, w);
    return raw(O_EXTRACT, w, a, nullptr, nullptr, off);
  }
  E concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (w > 128) { fprintf(stderr, "symx: concat too wide\n"); abort(); }
    if (isC(hi) && isC(lo)) return cst((hi->k << lo->w) | lo->k, w);
    if (isC(hi) && hi->k == 0) return zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return extract(hi->a, lo->aux, w);
    if (hi->op == O_EXTRACT && hi->a == lo && hi->aux == lo->w) return lo; // impossible widths but harmless
    if (lo->op == O_CONCAT) return concat(concat(hi, lo->a), lo->b);
    // zext(x) pieces: concat(extract(zext)) handled by extract
    return raw(O_CONCAT, w, hi, lo);
  }
  E zext(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return cst(a->k, w);
    if (a->op == O_ZEXT) return zext(a->a, w);
    if (a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, zext(a->b, w), zext(a->c, w));
    return raw(O_ZEXT, w, a);
  }
  E sext(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return cst((u128)sextw(a->k, a->w), w);
    if (a->op == O_ZEXT) return zext(a->a, w);
    if (a->op == O_SEXT) return sext(a->a, w);
    if (a->w <= 64 && a->w > 0 && a->hi < (1ull << (a->w - 1))) return zext(a, w);
    if (a->op == O_ITE && isC(a->b) && isC(a->c)) return ite(a->a, sext(a->b, w), sext(a->c, w));
    return raw(O_SEXT, w, a);
  }
  E lnot(E a) { return bin(O_XOR, a, T); }
  E band(E a, E b_) { return bin(O_AND, a, b_); }
  E bor(E a, E b_) { return bin(O_OR, a, b_); }
  E eq(E a, E b_) { return bin(O_EQ, a, b_); }
  E ite(E c, E x, E y) {
    if (isC(c)) return c->k ? x : y;
    if (x == y) return x;
    if (x->w == 1) {
      if (x == T && y == F) return c;
      if (x == F && y == T) return lnot(c);
      if (x == T) return bor(c, y);
      if (x == F) return band(lnot(c), y);
      if (y == T) return bor(lnot(c), x);
      if (y == F) return band(c, x);
    }
    if (c->op == O_XOR && c->b == T) return ite(c->a, y, x);
    if (x->op == O_ITE && x->a == c) x = x->b;
    if (y->op == O_ITE && y->a == c) y = y->c;
    if (y->op == O_ITE && y->b == x) return ite(bor(c, y->a), x, y->c);
    return raw(O_ITE, x->w, c, x, y);
  }
  static bool commut(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ; }
  static u128 fold(Op op, u128 a, u128 b, unsigned w) {
    u128 m = maskw(w); i128 sa, sb;
    switch (op) {
      case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
      case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
      case O_SDIV: sa = sextw(a, w); sb = sextw(b, w); if (!sb) return sa < 0 ? 1 : m; if (sb == -1) return (u128)(-(u128)sa) & m; return (u128)(sa / sb) & m;
      case O_SREM: sa = sextw(a, w); sb = sextw(b, w); if (!sb) return a; if (sb == -1) return 0; return (u128)(sa % sb) & m;
      case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
      case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
      case O_ASHR: { i128 s = sextw(a, w); return (u128)(s >> (b >= w ? (w > 127 ? 127 : w) : (unsigned)b)) & m; }
      case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
      case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
      case O_SLT: return sextw(a, w) < sextw(b, w); case O_SLE: return sextw(a, w) <= sextw(b, w);
      default: abort();
    }
  }
  static bool isCmp(Op op) { return op >= O_EQ && op <= O_SLE; }
  E bin(Op op, E a, E b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "symx: width mismatch op %d: %d vs %d\n", op, a->w, b->w); abort(); }
    if (isC(a) && isC(b)) return cst(fold(op, a->k, b->k, w), isCmp(op) ? 1 : w);
    if (commut(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
    u128 m = maskw(w);
    bool kb = isC(b); u128 k = kb ? b->k : 0;
    switch (op) {
      case O_ADD:
        if (kb && k == 0) return a;
        if (kb && a->op == O_ADD && isC(a->b)) return bin(O_ADD, a->a, cst(a->b->k + k, w));
        if (kb && a->op == O_SUB && isC(a->a)) return bin(O_SUB, cst(a->a->k + k, w), a->b);
        if (a->op == O_SUB && a->b == b) return a->a;
        if (b->op == O_SUB && b->b == a) return b->a;
        break;
      case O_SUB:
        if (a == b) return cst(0, w);
        if (kb) return bin(O_ADD, a, cst(-k, w));
        if (a->op == O_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
        if (b->op == O_ADD && b->a == a) return bin(O_SUB, cst(0, w), b->b);
        if (a->op == O_ADD && b->op == O_ADD && a->a == b->a) return bin(O_SUB, a->b, b->b);
        break;
      case O_MUL:
        if (kb && k == 0) return b; if (kb && k == 1) return a;
        if (kb && (k & (k - 1)) == 0) { unsigned s = 0; while ((k >> s) != 1) s++; return bin(O_SHL, a, cst(s, w)); }
        break;
      case O_UDIV:
        if (kb && k == 1) return a;
        if (kb && k && (k & (k - 1)) == 0) { unsigned s = 0; while ((k >> s) != 1) s++; return bin(O_LSHR, a, cst(s, w)); }
        break;
      case O_UREM:
        if (kb && k && (k & (k - 1)) == 0) return bin(O_AND, a, cst(k - 1, w));
        if (kb && w <= 64 && a->hi < (u64)k) return a;
        break;
      case O_SHL: case O_LSHR:
        if (kb && k == 0) return a;
        if (kb && k >= w) return cst(0, w);
        if (isC(a) && a->k == 0) return a;
        if (kb && op == O_SHL && k < w) return (a->op == O_CONCAT || a->op == O_ZEXT || a->op == O_ITE) ? raw(op, w, a, b) : raw(op, w, a, b);
        if (kb && op == O_LSHR) return zext(extract(a, (unsigned)k, w - (unsigned)k), w);
        break;
      case O_ASHR: if (kb && k == 0) return a; if (kb) { unsigned s = k >= w ? w - 1 : (unsigned)k; return sext(extract(a, s, w - s), w); } break;
      case O_AND:
        if (a == b) return a;
        if (kb && k == 0) return b; if (kb && k == m) return a;
        if (kb && a->op == O_AND && isC(a->b)) return bin(O_AND, a->a, cst(a->b->k & k, w));
        if (kb && w > 1 && (k & (k + 1)) == 0) { unsigned n = 0; while ((k >> n) & 1) n++; return zext(extract(a, 0, n), w); }
        if (kb && a->op == O_ZEXT) return zext(bin(O_AND, a->a, cst(k, a->a->w)), w);
        if (kb && a->op == O_CONCAT) return concat(bin(O_AND, a->a, cst(k >> a->b->w, a->a->w)), bin(O_AND, a->b, cst(k, a->b->w)));
        if (kb && w > 1) { unsigned tz = 0; while (!((k >> tz) & 1)) tz++; unsigned top = w; while (!((k >> (top - 1)) & 1)) top--; if ((tz > 0 || top < w) && ((k >> tz) & ((k >> tz) + 1)) == 0) { E mid = extract(a, tz, top - tz); E r = tz ? concat(mid, cst(0, tz)) : mid; return zext(r, w); } }
        if (w == 1) { if (a->op == O_XOR && a->b == T && a->a == b) return F; if (b->op == O_XOR && b->b == T && b->a == a) return F;
          if (a->op == O_AND && (a->a == b || a->b == b)) return a; if (b->op == O_AND && (b->a == a || b->b == a)) return b; }
        break;
      case O_OR:
        if (a == b) return a;
        if (kb && k == 0) return a; if (kb && k == m) return b;
        if (kb && a->op == O_OR && isC(a->b)) return bin(O_OR, a->a, cst(a->b->k | k, w));
        if (kb && a->op == O_ZEXT) { unsigned iw = a->a->w; return concat(cst(k >> iw, w - iw), bin(O_OR, a->a, cst(k, iw))); }
        if (kb && a->op == O_CONCAT) return concat(bin(O_OR, a->a, cst(k >> a->b->w, a->a->w)), bin(O_OR, a->b, cst(k, a->b->w)));
        if (!kb) { // disjoint pieces: (zext x) | (shl y c) -> concat when non overlapping
          E z = a, s = b; if (z->op != O_ZEXT) std::swap(z, s);
          if (z->op == O_ZEXT && s->op == O_SHL && isC(s->b) && (u64)s->b->k >= z->a->w) {
            unsigned sh = (unsigned)s->b->k; E top = extract(s->a, 0, w - sh); E low = zext(z->a, sh); return concat(top, low); }
          if (z->op == O_ZEXT && s->op == O_CONCAT && isC(s->b) && s->b->k == 0 && s->b->w >= z->a->w) return concat(s->a, zext(z->a, s->b->w));
        }
        if (w == 1) { if (a->op == O_XOR && a->b == T && a->a == b) return T; if (b->op == O_XOR && b->b == T && b->a == a) return T;
          if (a->op == O_OR && (a->a == b || a->b == b)) return a; if (b->op == O_OR && (b->a == a || b->b == a)) return b; }
        break;
      case O_XOR:
        if (a == b) return cst(0, w);
        if (kb && k == 0) return a;
        if (kb && a->op == O_XOR && isC(a->b)) return bin(O_XOR, a->a, cst(a->b->k ^ k, w));
        if (w == 1 && kb) { // not
          if (a->op == O_ULT) return bin(O_ULE, a->b, a->a); if (a->op == O_ULE) return bin(O_ULT, a->b, a->a);
          if (a->op == O_SLT) return bin(O_SLE, a->b, a->a); if (a->op == O_SLE) return bin(O_SLT, a->b, a->a);
        }
        break;
      case O_EQ:
        if (a == b) return T;
        if (w == 1 && kb) return k ? a : lnot(a);
        if (w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return F;
        if (kb) {
          if (a->op == O_ADD && isC(a->b)) return eq(a->a, cst(k - a->b->k, w));
          if (a->op == O_XOR && isC(a->b)) return eq(a->a, cst(k ^ a->b->k, w));
          if (a->op == O_SUB && isC(a->a)) return eq(a->b, cst(a->a->k - k, w));
          if (a->op == O_SUB && k == 0) return eq(a->a, a->b);
          if (a->op == O_XOR && k == 0) return eq(a->a, a->b);
          if (a->op == O_ZEXT) { if (k >> a->a->w) return F; return eq(a->a, cst(k, a->a->w)); }
          if (a->op == O_SEXT) { if ((u128)sextw(k, a->a->w) % 1 == 0 && ((u128)sextw(k & maskw(a->a->w), a->a->w) & m) == k) return eq(a->a, cst(k, a->a->w)); return F; }
          if (a->op == O_CONCAT) return band(eq(a->a, cst(k >> a->b->w, a->a->w)), eq(a->b, cst(k, a->b->w)));
          if (a->op == O_ITE) { if (isC(a->b) && isC(a->c)) { bool x = a->b->k == k, y = a->c->k == k; if (x) return y ? T : a->a; return y ? lnot(a->a) : F; }
            if (isC(a->b)) { if (a->b->k == k) return bor(a->a, eq(a->c, b)); return band(lnot(a->a), eq(a->c, b)); }
            if (isC(a->c)) { if (a->c->k == k) return bor(lnot(a->a), eq(a->b, b)); return band(a->a, eq(a->b, b)); } }
          if (a->op == O_OR && k == 0) return band(eq(a->a, b), eq(a->b, b));
          if (a->op == O_SHL && isC(a->b) && (u64)a->b->k < w) { unsigned s = (unsigned)a->b->k; if (k & maskw(s)) return F; return eq(extract(a->a, 0, w - s), cst(k >> s, w - s)); }
        } else {
          if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return eq(a->a, b->a);
          if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
          if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) return band(eq(a->a, b->a), eq(a->b, b->b));
          if (a->op == O_ADD && b->op == O_ADD && a->b == b->b) return eq(a->a, b->a);
          if (a->op == O_ADD && isC(a->b) && a->a == b) return F; if (b->op == O_ADD && isC(b->b) && b->a == a) return F;
        }
        break;
      case O_ULT:
        if (a == b) return F;
        if (w <= 64) { if (a->hi < b->lo) return T; if (a->lo >= b->hi) return F; }
        if (kb && k == 1) return eq(a, cst(0, w));
        if (isC(a) && a->k == 0) return lnot(eq(b, a));
        if (kb && a->op == O_ZEXT) return bin(O_ULT, a->a, cst(k, a->a->w));
        if (isC(a) && b->op == O_ZEXT) return bin(O_ULT, cst(a->k, b->a->w), b->a);
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
        break;
      case O_ULE:
        if (a == b) return T;
        if (w <= 64) { if (a->hi <= b->lo) return T; if (a->lo > b->hi) return F; }
        if (kb && k == 0) return eq(a, b);
        if (kb && a->op == O_ZEXT) return bin(O_ULE, a->a, cst(k, a->a->w));
        if (isC(a) && b->op == O_ZEXT) return bin(O_ULE, cst(a->k, b->a->w), b->a);
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
        break;
      case O_SLT: case O_SLE:
        if (a == b) return op == O_SLE ? T : F;
        if (w <= 64) { u64 h = 1ull << (w - 1); if (a->hi < h && b->hi < h) return bin(op == O_SLT ? O_ULT : O_ULE, a, b);
          if (a->lo >= h && b->hi < h) return T; if (a->hi < h && b->lo >= h) return F; }
        if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
        break;
      default: break;
    }
    return raw(op, isCmp(op) ? 1 : w, a, b);
  }
  // ---- floating point helpers (constant folding natively)
  static double bitsD(u64 x) { double d; memcpy(&d, &x, 8); return d; }
  static u64 dbits(double d) { u64 x; memcpy(&x, &d, 8); return x; }
  static float bitsF(u32 x) { float d; memcpy(&d, &x, 4); return d; }
  static u32 fbits(float d) { u32 x; memcpy(&x, &d, 4); return x; }
  static u128 ffold(Op op, u128 a, u128 b, unsigned w, unsigned ow) {
    if (op == O_STOF || op == O_UTOF) {
      if (ow == 32) return fbits(op == O_STOF ? (float)sextw(a, w) : (float)a);
      return dbits(op == O_STOF ? (double)sextw(a, w) : (double)a);
    }
    if (w == 32) {
      float x = bitsF((u32)a), y = bitsF((u32)b);
      switch (op) { case O_FADD: return fbits(x + y); case O_FSUB: return fbits(x - y); case O_FMUL: return fbits(x * y); case O_FDIV: return fbits(x / y);
        case O_FLT: return x < y; case O_FLE: return x <= y; case O_FEQ: return x == y;
        case O_FTOF: return ow == 64 ? (u128)dbits(x) : (u128)(u32)a; case O_FTOS: return (u128)(i128)(i64)x & maskw(ow); case O_FTOU: return (u128)(u64)x & maskw(ow); default: abort(); }
    }
    double x = bitsD((u64)a), y = bitsD((u64)b);
    switch (op) { case O_FADD: return dbits(x + y); case O_FSUB: return dbits(x - y); case O_FMUL: return dbits(x * y); case O_FDIV: return dbits(x / y);
      case O_FLT: return x < y; case O_FLE: return x <= y; case O_FEQ: return x == y;
      case O_FTOF: return ow == 32 ? (u128)fbits((float)x) : (u128)(u64)a; case O_FTOS: return (u128)(i128)(i64)x & maskw(ow); case O_FTOU: return (u128)(u64)x & maskw(ow); default: abort(); }
  }
  E fop(Op op, E a, E b, unsigned ow) {
    if (isC(a) && (!b || isC(b))) return cst(ffold(op, a->k, b ? b->k : 0, a->w, ow), ow);
    return raw(op, ow, a, b, nullptr, a->w);
  }
};
extern ExprPool P;

// Model: value per variable (default 0)
struct Model {
  std::vector<u128> v;
  u128 get(u32 i) const { return i < v.size() ? v[i] : 0; }
  void set(u32 i, u128 x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; }
};
static inline u128 evalE(E e, const Model& m);
static inline u128 evalRec(E e, const Model& m, u64 ep) {
  if (e->op == O_CONST) return e->k;
  if (e->ep == ep) return e->ev;
  u128 r = 0;
  switch (e->op) {
    case O_VAR: r = m.get(e->aux) & maskw(e->w); break;
    case O_EXTRACT: r = (evalRec(e->a, m, ep) >> e->aux) & maskw(e->w); break;
    case O_CONCAT: r = (evalRec(e->a, m, ep) << e->b->w) | evalRec(e->b, m, ep); break;
    case O_ZEXT: r = evalRec(e->a, m, ep); break;
    case O_SEXT: r = (u128)sextw(evalRec(e->a, m, ep), e->a->w) & maskw(e->w); break;
    case O_ITE: r = evalRec(e->a, m, ep) ? evalRec(e->b, m, ep) : evalRec(e->c, m, ep); break;
    default:
      if (e->op >= O_FADD) r = ExprPool::ffold(e->op, evalRec(e->a, m, ep), e->b ? evalRec(e->b, m, ep) : 0, e->a->w, e->w);
      else r = ExprPool::fold(e->op, evalRec(e->a, m, ep), evalRec(e->b, m, ep), e->a->w);
  }
  e->ep = ep; e->ev = r; return r;
}
static inline u128 evalE(E e, const Model& m) { if (e->op == O_CONST) return e->k; return evalRec(e, m, ++P.epoch); }
