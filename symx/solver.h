// SMT back end: bit-vector queries to z3, with independence slicing and caching.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <set>

struct Stats { u64 queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, finite = 0; double solverTime = 0; };
extern Stats ST;

struct Solver {
  Z3_context cx; Z3_solver sol; Z3_sort s1;
  std::unordered_map<E, Z3_ast> memo;
  std::vector<Z3_ast> varAst;
  std::vector<std::pair<u32, E>> dummy;
  struct KeyHash { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
  struct Res { int r; std::vector<std::pair<u32, u128>> m; };
  std::unordered_map<std::vector<u32>, Res, KeyHash> cache;
  unsigned timeoutMs;
  bool usesFP = false;
  Solver(unsigned tmo = 60000) : timeoutMs(tmo) { init(); }
  void init() {
    Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true");
    cx = Z3_mk_context(c); Z3_del_config(c);
    Z3_set_error_handler(cx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "symx: z3 error %s\n", Z3_get_error_msg(c, e)); abort(); });
    mkSolver();
  }
  void mkSolver() {
    sol = Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, usesFP ? "QF_BVFP" : "QF_BV"));
    Z3_solver_inc_ref(cx, sol);
    Z3_params p = Z3_mk_params(cx); Z3_params_inc_ref(cx, p);
    Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, "timeout"), timeoutMs);
    Z3_solver_set_params(cx, sol, p); Z3_params_dec_ref(cx, p);
  }
  Z3_ast num(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(cx, (u64)v, Z3_mk_bv_sort(cx, w));
    return Z3_mk_concat(cx, Z3_mk_unsigned_int64(cx, (u64)(v >> 64), Z3_mk_bv_sort(cx, w - 64)), Z3_mk_unsigned_int64(cx, (u64)v, Z3_mk_bv_sort(cx, 64)));
  }
  Z3_ast toBool(E e) { // width-1 as Bool
    switch (e->op) {
      case O_CONST: return e->k ? Z3_mk_true(cx) : Z3_mk_false(cx);
      case O_EQ: if (e->a->w == 1) return Z3_mk_iff(cx, toBool(e->a), toBool(e->b)); return Z3_mk_eq(cx, tr(e->a), tr(e->b));
      case O_ULT: if (e->a->w == 1) break; return Z3_mk_bvult(cx, tr(e->a), tr(e->b));
      case O_ULE: return Z3_mk_bvule(cx, tr(e->a), tr(e->b));
      case O_SLT: return Z3_mk_bvslt(cx, tr(e->a), tr(e->b));
      case O_SLE: return Z3_mk_bvsle(cx, tr(e->a), tr(e->b));
      case O_FLT: return Z3_mk_fpa_lt(cx, fp(e->a), fp(e->b));
      case O_FLE: return Z3_mk_fpa_leq(cx, fp(e->a), fp(e->b));
      case O_FEQ: return Z3_mk_fpa_eq(cx, fp(e->a), fp(e->b));
      case O_XOR: if (e->b == P.T) return Z3_mk_not(cx, boolOf(e->a)); return Z3_mk_xor(cx, boolOf(e->a), boolOf(e->b));
      case O_AND: { Z3_ast x[2] = {boolOf(e->a), boolOf(e->b)}; return Z3_mk_and(cx, 2, x); }
      case O_OR: { Z3_ast x[2] = {boolOf(e->a), boolOf(e->b)}; return Z3_mk_or(cx, 2, x); }
      case O_ITE: return Z3_mk_ite(cx, boolOf(e->a), boolOf(e->b), boolOf(e->c));
      default: break;
    }
    return Z3_mk_eq(cx, tr(e), num(1, 1));
  }
  std::unordered_map<E, Z3_ast> bmemo;
  Z3_ast boolOf(E e) { auto it = bmemo.find(e); if (it != bmemo.end()) return it->second; Z3_ast r = toBool(e); Z3_inc_ref_(r); bmemo[e] = r; return r; }
  void Z3_inc_ref_(Z3_ast) {} // non-rc context: Z3_mk_context manages lifetimes
  Z3_ast fp(E e) { usesFPnow = true; return Z3_mk_fpa_to_fp_bv(cx, tr(e), e->w == 32 ? Z3_mk_fpa_sort_32(cx) : Z3_mk_fpa_sort_64(cx)); }
  bool usesFPnow = false;
  Z3_ast tr(E e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Z3_ast r = nullptr;
    switch (e->op) {
      case O_CONST: r = num(e->k, e->w); break;
      case O_VAR: { char b[32]; snprintf(b, 32, "v%u", e->aux); r = Z3_mk_const(cx, Z3_mk_string_symbol(cx, b), Z3_mk_bv_sort(cx, e->w)); if (varAst.size() <= e->aux) varAst.resize(e->aux + 1); varAst[e->aux] = r; break; }
      case O_EXTRACT: r = Z3_mk_extract(cx, e->aux + e->w - 1, e->aux, tr(e->a)); break;
      case O_CONCAT: r = Z3_mk_concat(cx, tr(e->a), tr(e->b)); break;
      case O_ZEXT: r = Z3_mk_zero_ext(cx, e->w - e->a->w, tr(e->a)); break;
      case O_SEXT: r = Z3_mk_sign_ext(cx, e->w - e->a->w, tr(e->a)); break;
      case O_ADD: r = Z3_mk_bvadd(cx, tr(e->a), tr(e->b)); break;
      case O_SUB: r = Z3_mk_bvsub(cx, tr(e->a), tr(e->b)); break;
      case O_MUL: r = Z3_mk_bvmul(cx, tr(e->a), tr(e->b)); break;
      case O_UDIV: r = Z3_mk_bvudiv(cx, tr(e->a), tr(e->b)); break;
      case O_SDIV: r = Z3_mk_bvsdiv(cx, tr(e->a), tr(e->b)); break;
      case O_UREM: r = Z3_mk_bvurem(cx, tr(e->a), tr(e->b)); break;
      case O_SREM: r = Z3_mk_bvsrem(cx, tr(e->a), tr(e->b)); break;
      case O_SHL: r = Z3_mk_bvshl(cx, tr(e->a), tr(e->b)); break;
      case O_LSHR: r = Z3_mk_bvlshr(cx, tr(e->a), tr(e->b)); break;
      case O_ASHR: r = Z3_mk_bvashr(cx, tr(e->a), tr(e->b)); break;
      case O_AND: if (e->w == 1) goto viaBool; r = Z3_mk_bvand(cx, tr(e->a), tr(e->b)); break;
      case O_OR: if (e->w == 1) goto viaBool; r = Z3_mk_bvor(cx, tr(e->a), tr(e->b)); break;
      case O_XOR: if (e->w == 1) goto viaBool; r = Z3_mk_bvxor(cx, tr(e->a), tr(e->b)); break;
      case O_ITE: if (e->w == 1) goto viaBool; r = Z3_mk_ite(cx, boolOf(e->a), tr(e->b), tr(e->c)); break;
      case O_ULT: if (e->a->w == 1) { r = Z3_mk_bvand(cx, Z3_mk_bvnot(cx, tr(e->a)), tr(e->b)); break; } goto viaBool;
      case O_EQ: case O_ULE: case O_SLT: case O_SLE: case O_FLT: case O_FLE: case O_FEQ:
      viaBool: r = Z3_mk_ite(cx, boolOf(e), num(1, 1), num(0, 1)); break;
      case O_FADD: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_add(cx, Z3_mk_fpa_rne(cx), fp(e->a), fp(e->b))); break;
      case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_sub(cx, Z3_mk_fpa_rne(cx), fp(e->a), fp(e->b))); break;
      case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_mul(cx, Z3_mk_fpa_rne(cx), fp(e->a), fp(e->b))); break;
      case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_div(cx, Z3_mk_fpa_rne(cx), fp(e->a), fp(e->b))); break;
      case O_FTOF: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_to_fp_float(cx, Z3_mk_fpa_rne(cx), fp(e->a), e->w == 32 ? Z3_mk_fpa_sort_32(cx) : Z3_mk_fpa_sort_64(cx))); usesFPnow = true; break;
      case O_STOF: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_to_fp_signed(cx, Z3_mk_fpa_rne(cx), tr(e->a), e->w == 32 ? Z3_mk_fpa_sort_32(cx) : Z3_mk_fpa_sort_64(cx))); usesFPnow = true; break;
      case O_UTOF: r = Z3_mk_fpa_to_ieee_bv(cx, Z3_mk_fpa_to_fp_unsigned(cx, Z3_mk_fpa_rne(cx), tr(e->a), e->w == 32 ? Z3_mk_fpa_sort_32(cx) : Z3_mk_fpa_sort_64(cx))); usesFPnow = true; break;
      case O_FTOS: r = Z3_mk_fpa_to_sbv(cx, Z3_mk_fpa_rtz(cx), fp(e->a), e->w); break;
      case O_FTOU: r = Z3_mk_fpa_to_ubv(cx, Z3_mk_fpa_rtz(cx), fp(e->a), e->w); break;
    }
    memo[e] = r; return r;
  }
  // Equalities implied by the path are substituted into a large query; when it then folds to false it is refuted without bit-blasting.
  struct Subst {
    std::unordered_map<u32, E> m; std::unordered_map<E, E> memo;
    bool touches(E e) { for (u32 v : *e->sup) if (m.count(v)) return true; return false; }
    E ap(E e) {
      if (!touches(e)) return e;
      auto it = memo.find(e); if (it != memo.end()) return it->second;
      E r = e, a = e->a ? ap(e->a) : nullptr, b = e->b ? ap(e->b) : nullptr, c = e->c ? ap(e->c) : nullptr;
      switch (e->op) {
        case O_VAR: r = ap(m[e->aux]); break;
        case O_EXTRACT: r = P.extract(a, e->aux, e->w); break;
        case O_CONCAT: r = P.concat(a, b); break;
        case O_ZEXT: r = P.zext(a, e->w); break;
        case O_SEXT: r = P.sext(a, e->w); break;
        case O_ITE: r = P.ite(a, b, c); break;
        default: r = e->op >= O_FADD ? (a == e->a && b == e->b ? e : nullptr) : P.bin(e->op, a, b);
      }
      if (!r) r = e; // floating point is left as it is
      return memo[e] = r;
    }
    bool bind(E x, E y) { // x == y
      for (int i = 0; i < 2; i++, std::swap(x, y)) if (x->op == O_VAR && !m.count(x->aux) && !std::binary_search(y->sup->begin(), y->sup->end(), x->aux)) { memo.clear(); m[x->aux] = y; return true; }
      if (x->op == O_ZEXT && y->op == O_ZEXT && x->a->w == y->a->w) return bind(x->a, y->a);
      return false;
    }
  };
  static size_t big(E e, size_t lim) { std::set<E> seen; std::vector<E> w{e}; while (!w.empty() && seen.size() < lim) { E x = w.back(); w.pop_back(); if (!seen.insert(x).second) continue; for (E y : {x->a, x->b, x->c}) if (y) w.push_back(y); } return seen.size(); }
  static std::string show(E e, int d) {
    static const char* n[] = {"c", "v", "ext", "cat", "zext", "sext", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "eq", "ult", "ule", "slt", "sle", "ite"};
    if (e->op == O_CONST) return std::to_string((u64)e->k); if (e->op == O_VAR) return P.vars[e->aux].name + "#" + std::to_string(e->aux);
    std::string r = e->op < O_FADD ? n[e->op] : "f"; if (e->op == O_EXTRACT) r += std::to_string(e->aux) + ":" + std::to_string(e->w); if (!d) return r + "(..)";
    r += "("; for (E x : {e->a, e->b, e->c}) if (x) r += (r.back() == '(' ? "" : ", ") + show(x, d - 1); return r + ")";
  }
  bool refuted(const std::vector<E>& slice) { // slice[0] is the query
    if (slice.size() < 2 || big(slice[0], 30) < 30) return false;
    Subst S; std::vector<E> cs(slice.begin() + 1, slice.end());
    for (bool more = true; more;) {
      more = false;
      std::set<std::pair<E, E>> le;
      for (E& c : cs) {
        E d = S.ap(c); if (d == P.F) return true;
        c = d; std::vector<E> w{c};
        while (!w.empty()) {
          E x = w.back(); w.pop_back(); bool eq = false; E l = nullptr, r = nullptr;
          if (x->op == O_AND && x->w == 1) { w.push_back(x->a); w.push_back(x->b); }
          else if (x->op == O_EQ) { eq = true; l = x->a; r = x->b; }
          else if (x->op == O_XOR && x->w == 1 && x->b == P.T && x->a->op == O_XOR) { eq = true; l = x->a->a; r = x->a->b; }
          else if (x->op == O_XOR && x->w == 1 && x->b == P.T && x->a->op == O_AND) { // !(p && q): one of them implies the other's negation
            E p = x->a->a, q = x->a->b; if (p->op == O_XOR && p->b == P.T) std::swap(p, q);
            if (q->op == O_XOR && q->b == P.T) { q = q->a; le.insert({p, q}); if (le.count({q, p})) { eq = true; l = p; r = q; } } }
          else if (x->op == O_ULE || x->op == O_SLE) { le.insert({x->a, x->b}); if (le.count({x->b, x->a})) { eq = true; l = x->a; r = x->b; } }
          if (eq && S.bind(l, r)) more = true;
        }
        if (more) break;
      }
    }
    if (getenv("SYMX_SUBST")) { std::string o; for (E c : cs) o += "  " + show(c, 12) + "\n"; fprintf(stderr, "subst: %zu bound; %s\n%s", S.m.size(), show(S.ap(slice[0]), 8).c_str(), o.c_str()); }
    return !S.m.empty() && S.ap(slice[0]) == P.F;
  }
  // Feasibility of a branch over a few small variables (digits, characters): the formula is evaluated on every assignment of its domain. -1 when it is too large.
  int finite(const std::vector<E>& slice, const std::vector<u32>& vars, std::vector<std::pair<u32, u128>>& out) {
    u64 total = 1; std::vector<std::vector<u64>> dom;
    for (u32 v : vars) if (P.vars[v].w > 8) return -1;
    if (vars.size() > 5) return -1;
    for (E e : slice) if (big(e, 400) >= 400) return -1;
    Model m; std::vector<E> rest; for (E e : slice) if (e->sup->size() != 1) rest.push_back(e);
    for (u32 v : vars) {
      std::vector<u64> d; for (u64 x = 0; x < (1ull << P.vars[v].w); x++) { m.set(v, x); bool ok = true; for (E e : slice) if (e->sup->size() == 1 && (*e->sup)[0] == v && !evalE(e, m)) { ok = false; break; } if (ok) d.push_back(x); }
      if (d.empty()) return 0;
      total *= d.size(); if (total > 2048) return -1; dom.push_back(std::move(d));
    }
    std::vector<size_t> ix(vars.size(), 0);
    for (u64 n = 0; n < total; n++) {
      for (size_t i = 0; i < vars.size(); i++) m.set(vars[i], dom[i][ix[i]]);
      bool ok = true; u64 ep = ++P.epoch; for (E e : rest) if (!(e->op == O_CONST ? e->k : evalRec(e, m, ep))) { ok = false; break; }
      if (ok) { for (size_t i = 0; i < vars.size(); i++) out.push_back({vars[i], dom[i][ix[i]]}); return 1; }
      for (size_t i = 0; i < vars.size(); i++) { if (++ix[i] < dom[i].size()) break; ix[i] = 0; }
    }
    return 0;
  }
  // 1 sat, 0 unsat, -1 unknown. On sat fills assignment for variables in the slice.
  int check(const std::vector<E>& cs, E extra, std::vector<std::pair<u32, u128>>* out, bool branch = false) {
    // slice
    std::vector<E> slice; slice.push_back(extra);
    std::vector<char> in(cs.size(), 0);
    std::vector<u32> vars(*extra->sup);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < cs.size(); i++) if (!in[i]) {
        const auto& s = *cs[i]->sup; bool hit = false;
        size_t x = 0, y = 0;
        while (x < s.size() && y < vars.size()) { if (s[x] == vars[y]) { hit = true; break; } if (s[x] < vars[y]) x++; else y++; }
        if (hit) {
          in[i] = 1; slice.push_back(cs[i]);
          size_t before = vars.size();
          std::vector<u32> m; std::set_union(vars.begin(), vars.end(), s.begin(), s.end(), std::back_inserter(m));
          vars.swap(m); if (vars.size() != before) ch = true;
        }
      }
    }
    std::vector<u32> key; for (E e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) { ST.cacheHits++; if (out) *out = it->second.m; return it->second.r; }
    auto t0 = std::chrono::steady_clock::now();
    if (refuted(slice)) {
      ST.queries++; ST.unsat++; ST.solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      cache.emplace(std::move(key), Res{0, {}}); return 0;
    }
    if (branch) { // assertions always go on to the solver
      Res res; res.r = finite(slice, vars, res.m);
      if (res.r >= 0) { ST.finite++; ST.queries++; if (res.r) ST.sat++; else ST.unsat++; ST.solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (out) *out = res.m; int rr = res.r; cache.emplace(std::move(key), std::move(res)); return rr; }
    }
    usesFPnow = false;
    std::vector<Z3_ast> as; for (E e : slice) as.push_back(boolOf(e));
    if (usesFPnow && !usesFP) { usesFP = true; mkSolver(); }
    Z3_solver_push(cx, sol);
    for (auto a : as) Z3_solver_assert(cx, sol, a);
    Z3_lbool r = Z3_solver_check(cx, sol);
    Res res; res.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res.r == 1) {
      Z3_model m = Z3_solver_get_model(cx, sol); Z3_model_inc_ref(cx, m);
      for (u32 v : vars) {
        unsigned w = P.vars[v].w; u128 val = 0; Z3_ast o;
        if (v < varAst.size() && varAst[v]) {
          if (w <= 64) { u64 x = 0; if (Z3_model_eval(cx, m, varAst[v], true, &o) && Z3_get_numeral_uint64(cx, o, &x)) val = x; }
          else { u64 x = 0, y = 0; if (Z3_model_eval(cx, m, Z3_mk_extract(cx, 63, 0, varAst[v]), true, &o)) Z3_get_numeral_uint64(cx, o, &x);
            if (Z3_model_eval(cx, m, Z3_mk_extract(cx, w - 1, 64, varAst[v]), true, &o)) Z3_get_numeral_uint64(cx, o, &y); val = ((u128)y << 64) | x; }
        }
        res.m.push_back({v, val});
      }
      Z3_model_dec_ref(cx, m);
    }
    Z3_solver_pop(cx, sol, 1);
    ST.queries++; if (res.r == 1) ST.sat++; else if (res.r == 0) ST.unsat++; else ST.unknown++;
    ST.solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (out) *out = res.m;
    int rr = res.r;
    cache.emplace(std::move(key), std::move(res));
    return rr;
  }
};
