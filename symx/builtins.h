// Intrinsics and external functions.
#pragma once
static inline __attribute__((always_inline)) bool pre(sv s, const char* p) { size_t n = __builtin_strlen(p); return s.size() >= n && !__builtin_memcmp(s.data(), p, n); }
static unsigned tw(Type* t) { if (t->k == T_VEC) return tw(t->el); return t->k == T_PTR ? 64 : t->w; }

inline void Ex::intrinsic(sv n, const CallInfo& ci, Args& a, std::vector<Val>& r) {
  sv s = n.substr(5);
  if (pre(s, "lifetime.") || pre(s, "dbg.") || pre(s, "assume") || pre(s, "experimental.noalias") || pre(s, "invariant.end") || pre(s, "prefetch") || pre(s, "var.annotation") || pre(s, "donothing") || pre(s, "va_end") || pre(s, "sideeffect") || pre(s, "fake.use") || pre(s,"stackrestore")) {
    return; }
  if (pre(s, "memcpy") || pre(s, "memmove")) { memcpy_(a[0], a[1], fromE(P.zext(toE(a[2], ci.args[2].ty->w), 64))); return; }
  if (pre(s, "memset")) { memset_(a[0], a[1], fromE(P.zext(toE(a[2], ci.args[2].ty->w), 64))); return; }
  if (pre(s, "stacksave")) { r.push_back({0, nullptr}); return; }
  if (pre(s, "trap") || pre(s, "ubsantrap") || pre(s, "debugtrap")) abortPath("trap in " + std::string(st->fr.back().f->name));
  if (pre(s, "expect") || pre(s, "launder") || pre(s, "strip.invariant") || pre(s, "ssa.copy") || pre(s, "threadlocal.address") || pre(s, "annotation") || pre(s,"preserve.")) { for (u32 i = 0; i < ci.ret->nslots(); i++) r.push_back(a[i]); return; }
  if (pre(s, "invariant.start")) { r.push_back({0, nullptr}); return; }
  if (pre(s, "is.constant")) { r.push_back({0, nullptr}); return; }
  if (pre(s, "objectsize")) { r.push_back(cval(~(u128)0, ci.ret->w)); if (a[1].c) r[0] = cval(0, ci.ret->w); return; }
  if (pre(s, "eh.typeid.for")) { r.push_back({(u64)tiId(concretize(a[0], 64)), nullptr}); return; }
  if (pre(s, "ptrmask")) { r.push_back(fromE(P.bin(O_AND, toE(a[0], 64), toE(a[1], 64)))); return; }
  if (pre(s, "returnaddress") || pre(s, "frameaddress")) { r.push_back({0, nullptr}); return; }
  if (pre(s, "vector.reduce.")) {
    sv o = s.substr(14); unsigned w = tw(ci.args[0].ty); E e = toE(a[0], w);
    for (size_t i = 1; i < a.size(); i++) { E x = toE(a[i], w); if (pre(o, "add")) e = P.bin(O_ADD, e, x); else if (pre(o, "mul")) e = P.bin(O_MUL, e, x); else if (pre(o, "and")) e = P.bin(O_AND, e, x); else if (pre(o, "or")) e = P.bin(O_OR, e, x); else if (pre(o, "xor")) e = P.bin(O_XOR, e, x); else if (pre(o, "umax")) e = P.ite(P.bin(O_ULT, e, x), x, e); else if (pre(o, "umin")) e = P.ite(P.bin(O_ULT, x, e), x, e); else if (pre(o, "smax")) e = P.ite(P.bin(O_SLT, e, x), x, e); else if (pre(o, "smin")) e = P.ite(P.bin(O_SLT, x, e), x, e); else throw PathEnd{END_UNSUPPORTED, std::string(n)}; }
    r.push_back(fromE(e)); return; }
  if (pre(s, "x86.sse2.pmovmskb")) { E e = nullptr; for (int i = 0; i < 16; i++) { E b = P.extract(toE(a[i], 8), 7, 1); e = e ? P.concat(b, e) : b; } r.push_back(fromE(P.zext(e, 32))); return; }
  if (pre(s, "x86.sse2.pause")) return;
  if (pre(s, "load.relative")) { u64 p = concretize(a[0], 64); Val o = load({p + concretize(a[1], 64), nullptr}, 32); r.push_back(fromE(P.bin(O_ADD, P.cst(p, 64), P.sext(toE(o, 32), 64)))); return; }
  // element-wise
  static const char* ov[] = {"uadd.with.overflow", "usub.with.overflow", "umul.with.overflow", "sadd.with.overflow", "ssub.with.overflow", "smul.with.overflow"};
  for (int k = 0; k < 6; k++) if (pre(s, ov[k])) {
    u32 N = ci.args[0].ty->nslots(); unsigned w = tw(ci.args[0].ty); std::vector<Val> fl;
    for (u32 i = 0; i < N; i++) {
      if (w > 64 && k % 3 == 2) { // 128 bit multiply overflow: only constants
        E x = toE(a[i], w), y = toE(a[N + i], w); if (x->op != O_CONST || y->op != O_CONST) throw PathEnd{END_UNSUPPORTED, std::string(n)};
        bool o; u128 v; if (k == 2) { o = __builtin_mul_overflow(x->k, y->k, &v); } else { i128 z; o = __builtin_mul_overflow((i128)x->k, (i128)y->k, &z); v = (u128)z; } r.push_back({0, P.cst(v, w)}); fl.push_back({o, nullptr}); continue; }
      E x = toE(a[i], w), y = toE(a[N + i], w), res, o;
      if (w <= 64) {
        unsigned W = k % 3 == 2 ? 2 * w : w + 1; E X = k < 3 ? P.zext(x, W) : P.sext(x, W), Y = k < 3 ? P.zext(y, W) : P.sext(y, W);
        E full = P.bin(k % 3 == 0 ? O_ADD : k % 3 == 1 ? O_SUB : O_MUL, X, Y); res = P.bin(k % 3 == 0 ? O_ADD : k % 3 == 1 ? O_SUB : O_MUL, x, y);
        if (k < 3) { if (k == 0) o = P.bin(O_ULT, res, x); else if (k == 1) o = P.bin(O_ULT, x, y); else o = P.lnot(P.eq(P.extract(full, w, w), P.cst(0, w))); } else o = P.lnot(P.eq(P.sext(res, W), full));
      } else { res = P.bin(k % 3 == 0 ? O_ADD : O_SUB, x, y); if (k == 0) o = P.bin(O_ULT, res, x); else if (k == 1) o = P.bin(O_ULT, x, y); else { E sx = P.extract(x, w - 1, 1), sy = P.extract(y, w - 1, 1), sr = P.extract(res, w - 1, 1); o = k == 3 ? P.band(P.eq(sx, sy), P.lnot(P.eq(sx, sr))) : P.band(P.lnot(P.eq(sx, sy)), P.lnot(P.eq(sx, sr))); } }
      r.push_back(fromE(res)); fl.push_back(fromE(o));
    }
    for (auto& f : fl) r.push_back(f); return; }
  u32 N = ci.ret->nslots(); unsigned w = N ? tw(ci.ret) : 0;
  for (u32 i = 0; i < N; i++) {
    E x = toE(a[i], tw(ci.args[0].ty)); E y = ci.args.size() > 1 && a.size() > N + i ? toE(a[N + i], tw(ci.args[1].ty)) : nullptr; E e = nullptr;
    if (pre(s, "umin.")) e = P.ite(P.bin(O_ULT, x, y), x, y); else if (pre(s, "umax.")) e = P.ite(P.bin(O_ULT, x, y), y, x);
    else if (pre(s, "smin.")) e = P.ite(P.bin(O_SLT, x, y), x, y); else if (pre(s, "smax.")) e = P.ite(P.bin(O_SLT, x, y), y, x);
    else if (pre(s, "abs.")) e = P.ite(P.bin(O_SLT, x, P.cst(0, w)), P.bin(O_SUB, P.cst(0, w), x), x);
    else if (pre(s, "ctpop.")) { E acc = P.cst(0, w); for (unsigned b = 0; b < w; b++) acc = P.bin(O_ADD, acc, w > 1 ? P.zext(P.extract(x, b, 1), w) : x); e = acc; }
    else if (pre(s, "ctlz.")) { e = P.cst(w, w); for (unsigned b = 0; b < w; b++) e = P.ite(P.extract(x, b, 1), P.cst(w - 1 - b, w), e); }
    else if (pre(s, "cttz.")) { e = P.cst(w, w); for (unsigned b = w; b-- > 0;) e = P.ite(P.extract(x, b, 1), P.cst(b, w), e); }
    else if (pre(s, "bswap.")) { for (unsigned b = 0; b < w; b += 8) { E k = P.extract(x, b, 8); e = e ? P.concat(e, k) : k; } }
    else if (pre(s, "bitreverse.")) { for (unsigned b = 0; b < w; b++) { E k = P.extract(x, b, 1); e = e ? P.concat(e, k) : k; } }
    else if (pre(s, "fshl.") || pre(s, "fshr.")) { E z = P.bin(O_UREM, toE(a[2 * N + i], w), P.cst(w, w)); if (w > 64) throw PathEnd{END_UNSUPPORTED, "wide fsh"}; E full = P.concat(x, y); E zz = P.zext(z, 2 * w); if (pre(s, "fshl.")) e = P.extract(P.bin(O_SHL, full, zz), w, w); else e = P.extract(P.bin(O_LSHR, full, zz), 0, w); }
    else if (pre(s, "uadd.sat")) { E q = P.bin(O_ADD, x, y); e = P.ite(P.bin(O_ULT, q, x), P.cst(~(u128)0, w), q); }
    else if (pre(s, "usub.sat")) e = P.ite(P.bin(O_ULT, x, y), P.cst(0, w), P.bin(O_SUB, x, y));
    else if (pre(s, "sadd.sat") || pre(s, "ssub.sat")) { if (w > 64) throw PathEnd{END_UNSUPPORTED, "wide sat"}; E X = P.sext(x, w + 1), Y = P.sext(y, w + 1); E q = P.bin(pre(s, "sadd") ? O_ADD : O_SUB, X, Y); E mx = P.cst(mask64(w) >> 1, w), mn = P.cst((u128)1 << (w - 1), w); e = P.ite(P.bin(O_SLT, P.sext(mx, w + 1), q), mx, P.ite(P.bin(O_SLT, q, P.sext(mn, w + 1)), mn, P.extract(q, 0, w))); }
    else if (pre(s, "ucmp.") || pre(s, "scmp.")) { Op lt = pre(s, "ucmp.") ? O_ULT : O_SLT; E neg = P.cst(~(u128)0, w); e = P.ite(P.bin(lt, x, y), neg, P.ite(P.bin(lt, y, x), P.cst(1, w), P.cst(0, w))); }
    else if (pre(s, "fabs.")) e = P.bin(O_AND, x, P.cst(maskw(w) >> 1, w));
    else if (pre(s, "copysign.")) e = P.bin(O_OR, P.bin(O_AND, x, P.cst(maskw(w) >> 1, w)), P.bin(O_AND, y, P.cst((u128)1 << (w - 1), w)));
    else if (pre(s, "fptosi.sat")) e = P.fop(O_FTOS, x, nullptr, w); else if (pre(s, "fptoui.sat")) e = P.fop(O_FTOU, x, nullptr, w);
    else if (pre(s, "fmuladd.") || pre(s, "fma.")) e = P.fop(O_FADD, P.fop(O_FMUL, x, y, w), toE(a[2 * N + i], w), w);
    else if (w == 64 && x->op == O_CONST && (pre(s, "floor.") || pre(s, "ceil.") || pre(s, "trunc.") || pre(s, "rint.") || pre(s, "round."))) { double d = P.bitsD((u64)x->k); d = pre(s, "floor") ? __builtin_floor(d) : pre(s, "ceil") ? __builtin_ceil(d) : pre(s, "trunc") ? __builtin_trunc(d) : __builtin_rint(d); e = P.cst(P.dbits(d), 64); }
    else if (w == 32 && x->op == O_CONST && (pre(s, "floor.") || pre(s, "ceil.") || pre(s, "trunc."))) { float d = P.bitsF((u32)x->k); d = pre(s, "floor") ? __builtin_floorf(d) : pre(s, "ceil") ? __builtin_ceilf(d) : __builtin_truncf(d); e = P.cst(P.fbits(d), 32); }
    else throw PathEnd{END_UNSUPPORTED, "intrinsic " + std::string(n)};
    r.push_back(fromE(e));
  }
}

inline void Ex::initBuiltins() {
  auto def = [&](const char* n, BI b) { biIndex[n] = (int)bis.size(); bis.push_back(b); };
#define B [](Ex& x, const CallInfo& ci, Args& a, Val* r, Type* rt) -> void
#define UNUSED (void)x; (void)ci; (void)a; (void)r; (void)rt
  auto noop = B { UNUSED; };
  auto zero = B { UNUSED; };
  auto minus1 = B { UNUSED; if (rt->nslots()) r[0] = cval(~(u128)0, rt->slots[0].w); };
  // ---- harness interface
  def("sym_u64", B { UNUSED; u64 w = a[0].c; E v = P.var(x.cstr(a[1].c), (unsigned)w); Input in; in.name = x.cstr(a[1].c); in.w = w; in.e = v; in.isBytes = false; in.n = 0; x.st->inputs.push_back(in); r[0] = fromE(P.zext(v, 64)); });
  def("sym_range", B { UNUSED; u64 lo = a[0].c, hi = a[1].c; unsigned w = 1; while (w < 64 && (hi >> w)) w++; std::string nm = x.cstr(a[2].c); if (lo == hi) { Input in; in.name = nm; in.w = 64; in.e = P.cst(lo, 64); in.isBytes = false; in.n = 0; x.st->inputs.push_back(in); r[0] = {lo, nullptr}; return; }
    E v = P.var(nm, w); E z = P.zext(v, 64); E c = P.band(P.bin(O_ULE, P.cst(lo, 64), z), P.bin(O_ULE, z, P.cst(hi, 64))); x.addC(*x.st, c); x.st->model.set(v->aux, lo); Input in; in.name = nm; in.w = w; in.e = v; in.isBytes = false; in.n = 0; x.st->inputs.push_back(in); r[0] = fromE(z); });
  // concrete choice in [0,n): forks one path per value
  def("sym_choice", B { UNUSED; u64 n = a[0].c; std::string nm = x.cstr(a[1].c); if (n <= 1) { Input in; in.name = nm; in.w = 64; in.e = P.cst(0, 64); in.isBytes = false; in.n = 0; x.st->inputs.push_back(in); r[0] = {0, nullptr}; return; }
    State& s = *x.st; unsigned w = 1; while ((1ull << w) < n) w++; 
    E v = P.var(nm, w); std::vector<E> none; 
    for (u64 i = n; i-- > 1;) { State* c = new State(s); E eq = P.eq(v, P.cst(i, w)); c->cs.push_back(eq); c->model.set(v->aux, i); Input in; in.name = nm; in.w = w; in.e = v; in.isBytes = false; in.n = 0; c->inputs.push_back(in); 
      // finish the call in the clone
      Frame& fr = c->fr.back(); const Instr& I = fr.f->code[fr.pc]; if (I.n) c->regs[fr.base + I.dst] = {i, nullptr}; State* keep = x.st; x.st = c; if (ci.normal >= 0) x.jump(ci.normal); else c->fr.back().pc++; x.st = keep; c->depth++; x.work.push_back(c); x.forks++; }
    s.cs.push_back(P.eq(v, P.cst(0, w))); s.model.set(v->aux, 0); Input in; in.name = nm; in.w = w; in.e = v; in.isBytes = false; in.n = 0; s.inputs.push_back(in); r[0] = {0, nullptr}; });
  def("sym_bytes", B { UNUSED; u64 p = x.concretize(a[0], 64), n = x.concretize(a[1], 64); std::string nm = x.cstr(a[2].c); Input in; in.name = nm; in.isBytes = true; in.n = n; in.w = 8; in.e = nullptr;
    if (n) { Ex::Ref rf = x.resolve({p, nullptr}, n, true, false, "sym_bytes"); for (u64 i = 0; i < n; i++) { E v = P.var(nm + "[" + std::to_string(i) + "]", 8); in.bytes.push_back(v); x.storeAt(rf.o, rf.off + i, {0, v}, 8); } } x.st->inputs.push_back(in); });
  def("sym_assume", B { UNUSED; E e = toE(a[0], rt ? 32 : 32); E c = P.lnot(P.eq(e, P.cst(0, e->w))); if (c->op == O_CONST) { if (!c->k) throw PathEnd{END_ASSUME, "assume"}; return; }
    if (evalE(c, x.st->model)) { x.addC(*x.st, c); return; }
    std::vector<std::pair<u32, u128>> m; int q = x.S.check(x.st->cs, c, &m); if (q < 0) throw PathEnd{END_UNSUPPORTED, "solver timeout"}; if (!q) throw PathEnd{END_ASSUME, "assume"}; x.addC(*x.st, c); x.applyModel(*x.st, m); });
  def("sym_assert", B { UNUSED; std::string id = x.cstr(x.concretize(a[1], 64)); E e = toE(a[0], 32); E c = P.lnot(P.eq(e, P.cst(0, e->w))); x.asserts[id]++;
    if (c->op == O_CONST) { if (c->k) return; x.report("assert", id, id, x.st->model); throw PathEnd{END_VIOLATION, id}; }
    x.assertSym[id]++;
    if (!evalE(c, x.st->model)) { x.report("assert", id, id, x.st->model); std::vector<std::pair<u32, u128>> m; int q = x.S.check(x.st->cs, c, &m); if (q == 1) { x.addC(*x.st, c); x.applyModel(*x.st, m); return; } throw PathEnd{END_VIOLATION, id}; }
    std::vector<std::pair<u32, u128>> m; int q = x.S.check(x.st->cs, P.lnot(c), &m); if (q < 0) { x.unknowns++; throw PathEnd{END_UNSUPPORTED, "solver timeout in assertion " + id}; }
    if (q) { State keep(*x.st); x.applyModel(keep, m); x.report("assert", id, id, keep.model); x.addC(*x.st, c); } });
  def("sym_reach", B { UNUSED; x.reach[x.cstr(a[0].c)]++; });
  def("sym_note", B { UNUSED; x.st->notes.push_back(x.cstr(a[0].c)); });
  def("sym_note_n", B { UNUSED; x.st->notes.push_back(x.strn(a[0].c, x.concretize(a[1], 64))); });
  def("sym_note_u64", B { UNUSED; x.st->notes.push_back(x.cstr(a[0].c) + "=" + std::to_string((u64)evalE(toE(a[1], 64), x.st->model))); });
  def("sym_live", B { UNUSED; i64 n = 0; for (int k : {K_MALLOC, K_NEW, K_NEWARR, K_RUST, K_EXC}) n += x.st->live[k]; r[0] = {(u64)n, nullptr}; });
  def("sym_expect_abort", B { UNUSED; x.st->expectAbort = (int)x.concretize(a[0], 32); });
  def("sym_concrete", B { UNUSED; r[0] = {x.concretize(a[0], 64), nullptr}; });
  def("sym_is_symbolic", B { UNUSED; r[0] = {a[0].e != nullptr, nullptr}; });
  def("symx_constant_hash", B { UNUSED; r[0] = {0x5555555555555555ull, nullptr}; });
  def("sym_on_engine", B { UNUSED; r[0] = {1, nullptr}; });
  // What std runs at program start to learn the arguments.
  def("sym_std_args", B { UNUSED; Function* f = nullptr; for (auto& p : L.gf) if (!p.second->decl && p.first.find("15ARGV_INIT_ARRAY12init_wrapper") != sv::npos) f = p.second; if (!f) throw PathEnd{END_UNSUPPORTED, "std's argument initialisation not found"}; r[0] = {L.fnAddr(f), nullptr}; });
  def("sym_tier", B { UNUSED; r[0] = {(u64)O.tier, nullptr}; });
  def("sym_exit", B { UNUSED; throw PathEnd{END_RETURN, ""}; });
  // and/or/ite without control flow
  def("sym_and", B { UNUSED; r[0] = fromE(P.zext(P.band(P.lnot(P.eq(toE(a[0], 32), P.cst(0, 32))), P.lnot(P.eq(toE(a[1], 32), P.cst(0, 32)))), 32)); });
  def("sym_or", B { UNUSED; r[0] = fromE(P.zext(P.bor(P.lnot(P.eq(toE(a[0], 32), P.cst(0, 32))), P.lnot(P.eq(toE(a[1], 32), P.cst(0, 32)))), 32)); });
  def("sym_ite", B { UNUSED; r[0] = fromE(P.ite(P.lnot(P.eq(toE(a[0], 32), P.cst(0, 32))), toE(a[1], 64), toE(a[2], 64))); });
  // Text of a harness: equality, first occurrence (forking only where it depends on the inputs) and containment.
  def("sym_eqn", B { UNUSED; u64 p = x.concretize(a[0], 64), q = x.concretize(a[1], 64), n = x.concretize(a[2], 64); E e = P.cst(1, 1); for (u64 i = 0; i < n; i++) { e = P.band(e, P.eq(toE(x.load({p + i, nullptr}, 8), 8), toE(x.load({q + i, nullptr}, 8), 8))); if (e->op == O_CONST && !e->k) break; } r[0] = fromE(P.zext(e, 32)); });
  def("sym_find", B { UNUSED; u64 h = x.concretize(a[0], 64), hn = x.concretize(a[1], 64), q = x.concretize(a[2], 64), n = x.concretize(a[3], 64), from = x.concretize(a[4], 64); std::vector<Val> pat; for (u64 j = 0; j < n; j++) pat.push_back(x.load({q + j, nullptr}, 8));
    for (u64 i = from; i + n <= hn; i++) { E e = P.cst(1, 1); bool no = false; for (u64 j = 0; j < n; j++) { Val v = x.load({h + i + j, nullptr}, 8); if (!v.e && !pat[j].e) { if (v.c != pat[j].c) { no = true; break; } } else { e = P.band(e, P.eq(toE(v, 8), toE(pat[j], 8))); if (e->op == O_CONST && !e->k) { no = true; break; } } } if (no) continue; if (e->op == O_CONST || x.decide(e)) { r[0] = {i, nullptr}; return; } }
    r[0] = {~0ull, nullptr}; });
  def("sym_contains", B { UNUSED; u64 h = x.concretize(a[0], 64), hn = x.concretize(a[1], 64), q = x.concretize(a[2], 64), n = x.concretize(a[3], 64); E any = P.cst(0, 1);
    for (u64 i = 0; i + n <= hn; i++) { E e = P.cst(1, 1); for (u64 j = 0; j < n; j++) { e = P.band(e, P.eq(toE(x.load({h + i + j, nullptr}, 8), 8), toE(x.load({q + j, nullptr}, 8), 8))); if (e->op == O_CONST && !e->k) break; } any = P.lnot(P.band(P.lnot(any), P.lnot(e))); if (any->op == O_CONST && any->k) break; }
    r[0] = fromE(P.zext(any, 32)); });
  // ---- memory
  auto mc = B { UNUSED; x.memcpy_(a[0], a[1], a[2]); if (rt->nslots()) r[0] = a[0]; };
  def("memcpy", mc); def("memmove", mc);
  def("memset", B { UNUSED; x.memset_(a[0], fromE(P.extract(toE(a[1], 32), 0, 8)), a[2]); if (rt->nslots()) r[0] = a[0]; });
  auto cmp = B { UNUSED; u64 n = x.concretize(a[2], 64); E e = x.memcmpE(a[0], a[1], n); r[0] = fromE(e); };
  def("memcmp", cmp); def("bcmp", cmp);
  def("strlen", B { UNUSED; u64 p = x.concretize(a[0], 64); u64 n = 0; for (;;) { Val v = x.load({p + n, nullptr}, 8); if (v.e) { if (x.decide(P.eq(v.e, P.cst(0, 8)))) break; } else if (!v.c) break; n++; } r[0] = {n, nullptr}; });
  def("memchr", B { UNUSED; u64 p = x.concretize(a[0], 64), n = x.concretize(a[2], 64); E c = P.extract(toE(a[1], 32), 0, 8); for (u64 i = 0; i < n; i++) { Val v = x.load({p + i, nullptr}, 8); E q = P.eq(toE(v, 8), c); if (q->op == O_CONST ? (bool)q->k : x.decide(q)) { r[0] = {p + i, nullptr}; return; } } r[0] = {0, nullptr}; });
  def("malloc", B { UNUSED; r[0] = x.heapAlloc(a[0], K_MALLOC, 16, false, true); });
  def("calloc", B { UNUSED; r[0] = x.heapAlloc(fromE(P.bin(O_MUL, toE(a[0], 64), toE(a[1], 64))), K_MALLOC, 16, true, true); });
  def("free", B { UNUSED; u64 p = x.concretize(a[0], 64); if (p) x.heapFree(p, K_MALLOC, -1, -1); });
  def("realloc", B { UNUSED; u64 p = x.concretize(a[0], 64); Val n = x.heapAlloc(a[1], K_MALLOC, 16, false, true); r[0] = n; if (!n.c) return; if (p) { Obj* o = x.objAt(p); if (!o) x.violate("memory", "realloc of invalid pointer"); Obj* q = x.objAt(n.c); x.memcpy_(n, {p, nullptr}, {std::min(o->size, q->size), nullptr}); x.heapFree(p, K_MALLOC, -1, -1); } });
  def("posix_memalign", B { UNUSED; Val n = x.heapAlloc(a[2], K_MALLOC, x.concretize(a[1], 64), false, true); if (!n.c) { r[0] = {12, nullptr}; return; } x.store(a[0], n, 64); r[0] = {0, nullptr}; });
  def("aligned_alloc", B { UNUSED; r[0] = x.heapAlloc(a[1], K_MALLOC, x.concretize(a[0], 64), false, true); });
  def("_Znwm", B { UNUSED; r[0] = x.heapAlloc(a[0], K_NEW, 16, false, false); }); def("_Znam", B { UNUSED; r[0] = x.heapAlloc(a[0], K_NEWARR, 16, false, false); });
  def("_ZnwmSt11align_val_t", B { UNUSED; r[0] = x.heapAlloc(a[0], K_NEW, x.concretize(a[1], 64), false, false); });
  auto del = B { UNUSED; u64 p = x.concretize(a[0], 64); if (p) x.heapFree(p, K_NEW, -1, -1); };
  def("_ZdlPv", del); def("_ZdlPvm", B { UNUSED; u64 p = x.concretize(a[0], 64); if (p) x.heapFree(p, K_NEW, (i64)x.concretize(a[1], 64), -1); });
  def("_ZdlPvmSt11align_val_t", B { UNUSED; u64 p = x.concretize(a[0], 64); if (p) x.heapFree(p, K_NEW, (i64)x.concretize(a[1], 64), (i64)x.concretize(a[2], 64)); }); def("_ZdlPvSt11align_val_t", del);
  auto dela = B { UNUSED; u64 p = x.concretize(a[0], 64); if (p) x.heapFree(p, K_NEWARR, -1, -1); };
  def("_ZdaPv", dela); def("_ZdaPvm", dela);
  auto ra = B { UNUSED; r[0] = x.heapAlloc(a[0], K_RUST, x.concretize(a[1], 64), false, true); };
  auto raz = B { UNUSED; r[0] = x.heapAlloc(a[0], K_RUST, x.concretize(a[1], 64), true, true); };
  auto rd = B { UNUSED; u64 p = x.concretize(a[0], 64); x.heapFree(p, K_RUST, (i64)x.concretize(a[1], 64), (i64)x.concretize(a[2], 64)); };
  auto rr = B { UNUSED; u64 p = x.concretize(a[0], 64), os = x.concretize(a[1], 64), al = x.concretize(a[2], 64); Obj* o = x.objAt(p); if (!o) x.violate("memory", "realloc of invalid pointer"); if (o->size != os || o->align != al) x.violate("memory", "realloc with a layout other than that of the allocation"); Val n = x.heapAlloc(a[3], K_RUST, al, false, true); r[0] = n; if (!n.c) return; Obj* q = x.objAt(n.c); x.memcpy_(n, {p, nullptr}, {std::min(os, q->size), nullptr}); x.heapFree(p, K_RUST, (i64)os, (i64)al); };
  for (auto s : {"__rust_alloc", "__rdl_alloc"}) def(s, ra); for (auto s : {"__rust_alloc_zeroed", "__rdl_alloc_zeroed"}) def(s, raz); for (auto s : {"__rust_dealloc", "__rdl_dealloc"}) def(s, rd); for (auto s : {"__rust_realloc", "__rdl_realloc"}) def(s, rr);
  for (auto s : {"___rust_alloc"}) def(s, ra);
  def("__rust_no_alloc_shim_is_unstable", noop); def("__rust_no_alloc_shim_is_unstable_v2", noop); def("__rust_alloc_error_handler_should_panic", zero); def("__rust_alloc_error_handler_should_panic_v2", zero);
  auto abrt = B { UNUSED; x.abortPath("abort"); };
  def("__rust_alloc_error_handler", B { UNUSED; throw PathEnd{END_ASSUME, "Rust allocation failure"}; });
  def("abort", abrt); def("_ZSt9terminatev", B { UNUSED; x.abortPath("std::terminate"); }); def("__cxa_pure_virtual", B { UNUSED; x.abortPath("pure virtual call"); });
  def("_ZSt10unexpectedv", abrt); def("__stack_chk_fail", abrt); def("__assert_fail", B { UNUSED; x.abortPath("C assert failed: " + x.cstr(a[0].c)); });
  def("_ZSt21__glibcxx_assert_failPKciS0_S0_", abrt);
  auto ex = B { UNUSED; throw PathEnd{END_EXIT, "exit"}; }; def("exit", ex); def("_exit", ex);
  // ---- C++ runtime
  def("__cxa_allocate_exception", B { UNUSED; u64 n = x.concretize(a[0], 64); u64 p = x.allocObj(n + 128, K_EXC, 16, true); Obj* o = x.wobj(p); memcpy(o->d + 96, "\0++CCUNG", 8); r[0] = {p + 128, nullptr}; });
  def("__cxa_free_exception", B { UNUSED; x.freeException(x.concretize(a[0], 64)); });
  def("__cxa_throw", B { UNUSED; u64 o = x.concretize(a[0], 64); Exc& e = x.st->excs[o]; e = Exc(); e.obj = o; e.ti = a[1].c; e.dtor = a[2].c; x.doneCall = true; x.unwind(o, false); });
  def("__cxa_begin_catch", B { UNUSED; u64 p = x.excOf(x.concretize(a[0], 64)); Exc& e = x.st->excs[p]; x.st->uncaught--; if (e.handlers < 0) e.handlers = -e.handlers + 1; else e.handlers++; if (x.st->caught.empty() || x.st->caught.back() != p) x.st->caught.push_back(p); r[0] = {e.rust ? p : e.adj, nullptr}; });
  def("__cxa_get_exception_ptr", B { UNUSED; u64 p = x.excOf(x.concretize(a[0], 64)); r[0] = {x.st->excs[p].rust ? p : x.st->excs[p].adj, nullptr}; });
  def("__cxa_end_catch", B { UNUSED; if (x.st->caught.empty()) return; u64 p = x.st->caught.back(); Exc& e = x.st->excs[p];
    if (e.handlers < 0) { if (++e.handlers == 0) x.st->caught.pop_back(); return; }
    if (--e.handlers == 0) { x.st->caught.pop_back(); if (e.rust) x.abortPath("a Rust panic was caught by C++ and not rethrown");
      if (e.dtor) { Function* f = L.fnAt(e.dtor); if (!f) x.violate("memory", "bad exception destructor"); if (f->decl) { Function* g = L.findFn(f->mod, f->name); if (g) f = g; } if (f->decl) throw PathEnd{END_UNSUPPORTED, "exception destructor " + std::string(f->name)};
        x.pushFrame(f, -1, 0, &ci); x.regs()[f->params[0].reg] = {p, nullptr}; x.st->fr.back().onRetExc = p; x.doneCall = true; }
      else x.freeException(p); } });
  def("__cxa_rethrow", B { UNUSED; if (x.st->caught.empty()) x.abortPath("std::terminate: rethrow without exception"); u64 p = x.st->caught.back(); Exc& e = x.st->excs[p]; e.handlers = -e.handlers; x.doneCall = true; x.unwind(p, false); });
  def("_ZSt19uncaught_exceptionsv", B { UNUSED; r[0] = {(u64)x.st->uncaught, nullptr}; }); def("_ZSt18uncaught_exceptionv", B { UNUSED; r[0] = {x.st->uncaught > 0, nullptr}; });
  def("__cxa_guard_acquire", B { UNUSED; Val v = x.load(a[0], 8); r[0] = {v.e ? 0 : !v.c, nullptr}; }); def("__cxa_guard_release", B { UNUSED; x.store(a[0], {1, nullptr}, 8); }); def("__cxa_guard_abort", noop);
  def("__cxa_atexit", zero); def("__cxa_thread_atexit_impl", zero); def("atexit", zero); def("__cxa_thread_atexit", zero);
  def("_Unwind_RaiseException", B { UNUSED; u64 p = x.concretize(a[0], 64); Exc& e = x.st->excs[p]; e = Exc(); e.obj = p; e.rust = true; x.doneCall = true; if (!x.unwind(p, false)) { x.st->excs.erase(p); x.doneCall = false; r[0] = {5, nullptr}; } });
  def("_Unwind_Resume", B { UNUSED; x.doneCall = true; x.unwind(x.excOf(x.concretize(a[0], 64)), true); });
  def("_Unwind_DeleteException", B { UNUSED; u64 p = x.concretize(a[0], 64); u64 q = x.excOf(p); if (x.st->excs.count(q) && !x.st->excs[q].rust) { x.freeException(q); } });
  def("_Unwind_Backtrace", B { UNUSED; r[0] = {5, nullptr}; }); def("_Unwind_GetIP", zero); def("_Unwind_GetIPInfo", zero); def("_Unwind_FindEnclosingFunction", zero); def("_Unwind_GetCFA", zero); def("_Unwind_GetTextRelBase", zero); def("_Unwind_GetDataRelBase", zero);
  def("__gxx_personality_v0", zero);
  // ---- process environment: no files, no environment variables, writes discarded
  def("write", B { UNUSED; u64 n = x.concretize(a[2], 64); if (O.verbose) { std::string t = x.strn(x.concretize(a[1], 64), std::min<u64>(n, 400)); fprintf(stderr, "[out] %s\n", t.c_str()); } r[0] = {n, nullptr}; });
  def("writev", B { UNUSED; u64 t = 0, p = x.concretize(a[1], 64), n = x.concretize(a[2], 32); for (u64 i = 0; i < n; i++) { u64 b = x.concretize(x.load({p + 16 * i, nullptr}, 64), 64); u64 l = x.concretize(x.load({p + 16 * i + 8, nullptr}, 64), 64); if (O.verbose) fprintf(stderr, "[out] %s\n", x.strn(b, std::min<u64>(l, 400)).c_str()); t += l; } r[0] = {t, nullptr}; });
  def("getenv", zero); def("secure_getenv", zero); def("pthread_self", B { UNUSED; r[0] = {1, nullptr}; }); def("getpid", B { UNUSED; r[0] = {1, nullptr}; }); def("gettid", B { UNUSED; r[0] = {1, nullptr}; });
  for (auto s : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_cond_signal", "pthread_key_delete", "sched_yield", "isatty", "sigaction", "sigaltstack", "signal", "pthread_rwlock_rdlock", "pthread_rwlock_unlock", "pthread_rwlock_wrlock", "fflush"}) def(s, zero);
  def("pthread_key_create", B { UNUSED; x.st->tlsKeys.push_back(0); x.store(a[0], {x.st->tlsKeys.size(), nullptr}, 32); r[0] = {0, nullptr}; });
  def("pthread_setspecific", B { UNUSED; u64 k = x.concretize(a[0], 32); if (k && k <= x.st->tlsKeys.size()) x.st->tlsKeys[k - 1] = x.concretize(a[1], 64); r[0] = {0, nullptr}; });
  def("pthread_getspecific", B { UNUSED; u64 k = x.concretize(a[0], 32); r[0] = {k && k <= x.st->tlsKeys.size() ? x.st->tlsKeys[k - 1] : 0, nullptr}; });
  for (auto s : {"open", "open64", "read", "close", "stat64", "fstat64", "lstat64", "readlink", "ioctl", "poll", "sysconf", "prctl", "dl_iterate_phdr", "mmap", "mmap64", "munmap", "openat", "access", "getcwd", "realpath", "fcntl", "statx", "unlink", "symlink", "mkdir", "rmdir", "opendir", "link", "copy_file_range", "fstat", "stat", "lstat", "pthread_getname_np"}) def(s, minus1);
  biIndex.erase("getcwd"); def("getcwd", zero); biIndex.erase("realpath"); def("realpath", zero); biIndex.erase("opendir"); def("opendir", zero);
  def("__errno_location", B { UNUSED; if (!x.st->tlsDummy) x.st->tlsDummy = x.allocObj(8, K_STACK, 8, true); r[0] = {x.st->tlsDummy, nullptr}; });
  def("syscall", B { UNUSED; u64 no = a[0].c; if (no == 318) { u64 n = x.concretize(a[2], 64); x.memset_(a[1], {0, nullptr}, {n, nullptr}); r[0] = {n, nullptr}; return; } r[0] = cval(~(u128)0, 64); });
  def("getrandom", B { UNUSED; u64 n = x.concretize(a[1], 64); x.memset_(a[0], {0, nullptr}, {n, nullptr}); r[0] = {n, nullptr}; });
  def("strerror_r", zero); def("__xpg_strerror_r", zero); def("clock_gettime", zero);
#undef B
}
