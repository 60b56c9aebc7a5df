// symx: bounded symbolic execution of LLVM IR with an SMT solver deciding every branch and assertion.
#include "exec.h"
#include <csetjmp>
#include <thread>
#include <pthread.h>
ExprPool P; Linker L; TypeCtx TC; Stats ST; Opts O;
typedef std::vector<Val> Args;

struct Ex {
  std::vector<E> uninitPool; /* the k-th uninitialized byte read on a path: paths can share these variables */ Solver S; std::vector<State*> work; State* st = nullptr; const Instr* curI = nullptr;
  std::vector<Violation> viol; std::set<std::string> violKeys; u64 endCount[16] = {0}; u64 totalSteps = 0, forks = 0, paths = 0, unknowns = 0;
  std::map<std::string, u64> reach, asserts, assertSym, unsupported; std::map<u64, Global*> globalAt; u64 nextGlobalSlot = 16; std::unordered_map<u64, int> tiIds; std::vector<std::string> pathNotes; std::vector<std::vector<std::pair<std::string, std::string>>> samples; u64 okEnds = 0, nextSample = 1; u64 errnoAddr = 0; double t0 = 0; std::map<std::string, u64> abortMsgs;
  std::map<std::string, int> biIndex; typedef void (*BI)(Ex&, const CallInfo&, Args&, Val* ret, Type* rt); std::vector<BI> bis;
  bool doneCall = false; // builtin pushed a frame itself / transferred control

  // ------------------------------------------------------------ decisions
  void addC(State& s, E c) { if (c != P.T) s.cs.push_back(c); }
  static void applyModel(State& s, const std::vector<std::pair<u32, u128>>& m) { for (auto& p : m) s.model.set(p.first, p.second); }
  std::map<std::string, std::pair<u64, double>> qprof;
  // A condition is first rewritten with the values the path condition fixes (lengths and offsets that were made concrete).
  u64 fixedVers = 0, memoVer = ~0ull; std::unordered_map<E, E> fixedMemo;
  void fix(State& s, E c) {
    if (c->op == O_AND && c->w == 1) { fix(s, c->a); fix(s, c->b); return; }
    if (c->op != O_EQ) return;
    E a = c->a, b = c->b; if (a->op == O_CONST) std::swap(a, b); if (b->op != O_CONST || a->op == O_CONST) return;
    if (s.fixed.emplace(a, b).second) s.fixedVer = ++fixedVers;
  }
  E withFixed(State& s, E e) {
    if (s.fixed.empty()) return e;
    if (memoVer != s.fixedVer) { fixedMemo.clear(); memoVer = s.fixedVer; }
    return rw(s, e);
  }
  E rw(State& s, E e) {
    if (e->op == O_CONST) return e;
    auto it = fixedMemo.find(e); if (it != fixedMemo.end()) return it->second;
    E r = e; auto f = s.fixed.find(e);
    if (f != s.fixed.end()) r = f->second;
    else if (e->op != O_VAR) {
      E a = e->a ? rw(s, e->a) : nullptr, b = e->b ? rw(s, e->b) : nullptr, c = e->c ? rw(s, e->c) : nullptr;
      if (a != e->a || b != e->b || c != e->c) switch (e->op) {
        case O_EXTRACT: r = P.extract(a, e->aux, e->w); break;
        case O_CONCAT: r = P.concat(a, b); break;
        case O_ZEXT: r = P.zext(a, e->w); break;
        case O_SEXT: r = P.sext(a, e->w); break;
        case O_ITE: r = P.ite(a, b, c); break;
        default: if (e->op < O_FADD) r = P.bin(e->op, a, b);
      }
      if (r != e) { f = s.fixed.find(r); if (f != s.fixed.end()) r = f->second; }
    }
    fixedMemo[e] = r; return r;
  }
  bool decide(E c) {
    if (c->op == O_CONST) return c->k != 0;
    c = withFixed(*st, c);
    if (c->op == O_CONST) return c->k != 0;
    State& s = *st; 
    for (E k : s.known) { if (k == c) return true; if (k == P.lnot(c)) return false; }
    bool v = evalE(c, s.model) != 0;
    E other = v ? P.lnot(c) : c; E mine = v ? c : P.lnot(c);
    std::vector<std::pair<u32, u128>> m;
    static const bool prof = getenv("SYMX_QPROF"); u64 q0 = ST.queries; double t1 = ST.solverTime;
    int r = S.check(s.cs, other, &m, true);
    if (prof) { std::string k; for (size_t i = st->fr.size(), n = 0; i-- > 0 && n < 4; n++) k += std::string(st->fr[i].f->name).substr(0, 50) + " < "; auto& e = qprof[(r == 1 ? "FORK " : "") + k]; e.first++; e.second += ST.solverTime - t1; }
    if (r < 0) { unknowns++; throw PathEnd{END_UNSUPPORTED, "solver timeout"}; }
    if (r == 1) {
      State* n = new State(s); n->known.push_back(other); n->cs.push_back(other); fix(*n, other); applyModel(*n, m); n->depth++; work.push_back(n); forks++;
      s.cs.push_back(mine); s.depth++;
    }
    s.known.push_back(mine); fix(s, mine);
    return v;
  }
  bool hasUninit(E e) { for (u32 i : *e->sup) if (P.vars[i].name == "uninit") return true; return false; }
  u64 concretize(const Val& v, unsigned w) {
    if (!v.e) return v.c;
    if (v.e->op == O_CONST) return (u64)v.e->k;
    if (hasUninit(v.e)) violate("memory", "an uninitialised value decides a pointer, size or index");
    for (;;) { u128 k = evalE(v.e, st->model); if (decide(P.eq(v.e, P.cst(k, w)))) return (u64)k; }
  }
  // ------------------------------------------------------------ memory
  u64 placeGlobal(Global* g) {
    if (!g->ty) { Lex x(g->text, g->mod->base + g->mod->len, g->mod); g->ty = parseType(x); g->init = x.p; g->ty->layout(); g->size = g->ty->size;
      const char* q = x.p; while (q < x.e && *q != '\n') q++; sv tail(x.p, q - x.p); size_t a = tail.rfind(", align "); if (a != sv::npos) g->align = atoi(std::string(tail.substr(a + 8, 8)).c_str()); }
    u64 slot = nextGlobalSlot; nextGlobalSlot += (std::max<u64>(g->size, 1) >> WIN) + 1; globalAt[slot] = g; return slot << WIN;
  }
  Obj* materialize(u64 slot) {
    auto it = globalAt.upper_bound(slot); if (it == globalAt.begin()) return nullptr; --it; Global* g = it->second; u64 base = it->first;
    if (slot > base + (std::max<u64>(g->size, 1) >> WIN)) return nullptr;
    u64 sz = g->size; if (g->decl) sz = std::max<u64>(sz, 64);
    Obj* o = Obj::make(base << WIN, sz, K_GLOBAL, true); o->ro = g->cst; o->align = g->align;
    if (!g->decl) { Lex x(g->init, g->mod->base + g->mod->len, g->mod); constBytes(x, g->ty, o->d); }
    for (u64 s = base; s <= base + (sz >> WIN); s++) { st->mem.ref(s) = o; if (s != base) o->rc++; }
    return o;
  }
  Obj* objAt(u64 a) { u64 slot = a >> WIN; if (slot >= (1ull << 27)) return nullptr; Obj* o = st->mem.get(slot); if (!o && slot < (1ull << 22)) o = materialize(slot); return o; }
  Obj* wobj(u64 a) { u64 slot = a >> WIN; Obj* o = objAt(a); if (!o) return nullptr; slot = o->base >> WIN; return st->mem.write(slot); }
  u64 allocObj(u64 size, u8 kind, u64 align, bool zero) {
    State& s = *st; u64 n = (std::max<u64>(size, 1) >> WIN) + 1; u64 slot = s.nextSlot; s.nextSlot += n;
    if (s.nextSlot >= (1ull << 27)) throw PathEnd{END_LIMIT, "address space"};
    if (n > 1) throw PathEnd{END_UNSUPPORTED, "large object"};
    Obj* o = Obj::make(slot << WIN, size, kind, zero); o->align = align; s.mem.ref(slot) = o; s.live[kind]++; return slot << WIN;
  }
  void freeObj(u64 base) { Obj*& o = st->mem.ref(base >> WIN); st->live[o->kind]--; o->unref(); o = nullptr; }
  [[noreturn]] void violate(const std::string& kind, const std::string& msg, const std::string& id = "") {
    report(kind, msg, id, st->model); throw PathEnd{END_VIOLATION, kind + ": " + msg};
  }
  std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
  std::vector<std::pair<std::string, std::string>> concreteInputs(const Model& m) {
    std::vector<std::pair<std::string, std::string>> r;
    for (auto& in : st->inputs) {
      std::string v;
      if (in.isBytes) { for (E b : in.bytes) { char t[4]; snprintf(t, 4, "%02x", (unsigned)evalE(b, m)); v += t; } v = "x" + v; }
      else { v = std::to_string((u64)evalE(in.e, m)); }
      r.push_back({in.name, v});
    }
    return r;
  }
  void report(const std::string& kind, const std::string& msg, const std::string& id, const Model& m) {
    std::string where = st->fr.empty() ? "" : std::string(st->fr.back().f->name);
    std::string gen; for (size_t i = 0; i < msg.size(); i++) { if (msg[i] == '0' && i + 1 < msg.size() && msg[i + 1] == 'x') { i += 2; while (i < msg.size() && isxdigit(msg[i])) i++; gen += "ADDR"; i--; } else gen += msg[i]; }
    std::string key = kind + "|" + id + "|" + (id.empty() ? gen + where : "");
    if (!violKeys.insert(key).second) return;
    Violation v; v.kind = kind; v.msg = msg; v.id = id;
    for (size_t i = st->fr.size(); i-- > 0;) { v.stack.push_back(std::string(st->fr[i].f->name)); if (v.stack.size() > 25) break; }
    v.inputs = concreteInputs(m); v.notes = st->notes; viol.push_back(v);
    fprintf(stderr, "symx: VIOL %s %s %s\n", kind.c_str(), id.c_str(), msg.c_str()); for (auto& s : v.stack) fprintf(stderr, "    at %s\n", s.c_str());
    for (auto& p : v.inputs) fprintf(stderr, "    %s = %s\n", p.first.c_str(), p.second.c_str());
    for (auto& s : v.notes) fprintf(stderr, "    note: %s\n", s.c_str());
  }
  struct Ref { Obj* o; u64 off; E symOff; };
  Ref resolve(const Val& addr, u64 n, bool write, bool allowSym, const char* what) {
    if (!addr.e || addr.e->op == O_CONST) {
      u64 a = addr.e ? (u64)addr.e->k : addr.c; Obj* o = write ? wobj(a) : objAt(a);
      if (!o) badAccess(a, n, what);
      u64 off = a - o->base; if (off + n > o->size || off > o->size) badAccess(a, n, what, o);
      if (write && o->ro) violate("memory", std::string("write to constant memory in ") + what);
      return {o, off, nullptr};
    }
    u64 a = (u64)evalE(addr.e, st->model); Obj* o = objAt(a);
    if (!o || a - o->base + n > o->size) badAccess(a, n, what, o);
    E off = P.bin(O_SUB, addr.e, P.cst(o->base, 64)); u64 base = o->base, size = o->size;
    decide(P.bin(O_ULE, off, P.cst(size - n, 64)));
    if (!allowSym || size > 8192) { u64 k = concretize(fromE(off), 64); o = write ? wobj(base) : objAt(base); if (write && o->ro) violate("memory", "write to constant memory"); return {o, k, nullptr}; }
    return {objAt(base), 0, off};
  }
  [[noreturn]] void badAccess(u64 a, u64 n, const char* what, Obj* o = nullptr) {
    std::string m = std::string("invalid ") + what + " of " + std::to_string(n) + " bytes at " + hex(a);
    if (o) m += " (object " + hex(o->base) + " size " + std::to_string(o->size) + " " + kindName[o->kind] + ")"; else if (a < (1 << 20)) m += " (null page)"; else if ((a >> WIN) >= (1ull << 22) && (a >> WIN) < st->nextSlot) m += " (freed or out of scope)"; else if (L.fnAt(a)) m += " (function " + std::string(L.fnAt(a)->name) + ")";
    violate("memory", m);
  }
  E byteE(Obj* o, u64 i) {
    if (o->st[i] == 0) return P.cst(o->d[i], 8);
    if (o->st[i] == 1) return o->sym[i];
    if (st->uninits == uninitPool.size()) uninitPool.push_back(P.var("uninit", 8));
    E v = uninitPool[st->uninits++]; o->st[i] = 1; if (o->sym.empty()) o->sym.resize(o->size); o->sym[i] = v; return v;
  }
  Val loadAt(Obj* o, u64 off, unsigned w) {
    unsigned nb = (w + 7) / 8; bool conc = true;
    for (unsigned i = 0; i < nb; i++) if (o->st[off + i]) { conc = false; break; }
    if (conc) { if (w <= 64) { u64 v = 0; memcpy(&v, o->d + off, nb); return {v & mask64(w), nullptr}; } u128 v = 0; memcpy(&v, o->d + off, nb); return {0, P.cst(v, w)}; }
    // uninitialised bytes are materialised in place (consistently); object may be shared, the value is fresh and unconstrained
    E e = byteE(o, off); for (unsigned i = 1; i < nb; i++) e = P.concat(byteE(o, off + i), e);
    if (w < nb * 8) e = P.extract(e, 0, w);
    return fromE(e);
  }
  static unsigned tz(E e) { switch (e->op) { case O_CONST: { if (!e->k) return 64; unsigned n = 0; while (!((e->k >> n) & 1)) n++; return n; } case O_SHL: if (e->b->op == O_CONST) return std::min<unsigned>(64, (unsigned)e->b->k + tz(e->a)); return tz(e->a); case O_CONCAT: { unsigned t = tz(e->b); return e->b->op == O_CONST && e->b->k == 0 ? e->b->w + tz(e->a) : t; } case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(tz(e->a), tz(e->b)); case O_MUL: return std::min<unsigned>(64, tz(e->a) + tz(e->b)); case O_ZEXT: case O_SEXT: return tz(e->a); case O_ITE: return std::min(tz(e->b), tz(e->c)); default: return 0; } }
  Val load(const Val& addr, unsigned w) {
    unsigned nb = (w + 7) / 8; Ref r = resolve(addr, nb, false, true, "read");
    if (!r.symOff) return loadAt(r.o, r.off, w);
    E off = r.symOff; u64 hi = std::min<u64>(off->hi, r.o->size - nb), lo = std::min(off->lo, hi); unsigned t = std::min(tz(off), 12u); u64 step = 1ull << t; lo = (lo + step - 1) / step * step;
    std::vector<std::pair<u64, Val>> groups; 
    for (u64 i = lo; i <= hi; i += step) { bool un = false; for (unsigned j = 0; j < nb; j++) if (r.o->st[i + j] == 2) un = true; Val v = un ? Val{0, nullptr} : loadAt(r.o, i, w); if (groups.empty() || groups.back().second.c != v.c || groups.back().second.e != v.e) groups.push_back({i, v}); }
    if (groups.size() > 1024) { u64 k = concretize(fromE(off), 64); return loadAt(objAt(r.o->base), k, w); }
    // balanced ITE tree
    std::function<E(size_t, size_t)> build = [&](size_t a, size_t b) -> E { if (b - a == 1) return toE(groups[a].second, w); size_t m = (a + b) / 2; E l = build(a, m), rr = build(m, b); return P.ite(P.bin(O_ULT, off, P.cst(groups[m].first, 64)), l, rr); };
    return fromE(build(0, groups.size()));
  }
  void storeAt(Obj* o, u64 off, const Val& v, unsigned w) {
    unsigned nb = (w + 7) / 8;
    if (!v.e) { memcpy(o->d + off, &v.c, nb > 8 ? 8 : nb); memset(o->st + off, 0, nb); return; }
    if (v.e->op == O_CONST) { u128 k = v.e->k; memcpy(o->d + off, &k, nb); memset(o->st + off, 0, nb); return; }
    if (o->sym.empty()) o->sym.resize(o->size);
    E e = v.e; if (w < nb * 8) e = P.zext(e, nb * 8);
    for (unsigned i = 0; i < nb; i++) { E b = P.extract(e, 8 * i, 8); if (b->op == O_CONST) { o->d[off + i] = (u8)b->k; o->st[off + i] = 0; } else { o->sym[off + i] = b; o->st[off + i] = 1; } }
  }
  void store(const Val& addr, const Val& v, unsigned w) { Ref r = resolve(addr, (w + 7) / 8, true, false, "write"); storeAt(r.o, r.off, v, w); }
  void memcpy_(const Val& d, const Val& s, const Val& n) {
    u64 k = concretize(n, 64); if (!k) return;
    Val dv{concretize(d, 64), nullptr}, sv_{concretize(s, 64), nullptr};
    Ref b = resolve(sv_, k, false, false, "read (memcpy)"); Ref a = resolve(dv, k, true, false, "write (memcpy)");
    b = resolve(sv_, k, false, false, "read (memcpy)"); // the write may have cloned the object
    bool anySym = false; for (u64 i = 0; i < k; i++) if (b.o->st[b.off + i] == 1) { anySym = true; break; }
    if (anySym) { if (a.o->sym.empty()) a.o->sym.resize(a.o->size); std::vector<E> tmp(b.o->sym.begin() + b.off, b.o->sym.begin() + b.off + k); std::copy(tmp.begin(), tmp.end(), a.o->sym.begin() + a.off); }
    memmove(a.o->d + a.off, b.o->d + b.off, k); memmove(a.o->st + a.off, b.o->st + b.off, k);
  }
  void memset_(const Val& d, const Val& v, const Val& n) {
    u64 k = concretize(n, 64); if (!k) return; Val dv{concretize(d, 64), nullptr}; Ref a = resolve(dv, k, true, false, "write (memset)");
    if (!v.e) { memset(a.o->d + a.off, (int)v.c, k); memset(a.o->st + a.off, 0, k); } else for (u64 i = 0; i < k; i++) storeAt(a.o, a.off + i, v, 8);
  }
  E memcmpE(const Val& a, const Val& b, u64 n) { // 32-bit result
    E r = P.cst(0, 32); if (!n) return r;
    Val av{concretize(a, 64), nullptr}, bv{concretize(b, 64), nullptr};
    Ref x = resolve(av, n, false, false, "read (memcmp)"), y = resolve(bv, n, false, false, "read (memcmp)");
    for (u64 i = n; i-- > 0;) { E p = byteE(x.o, x.off + i), q = byteE(y.o, y.off + i); r = P.ite(P.eq(p, q), r, P.bin(O_SUB, P.zext(p, 32), P.zext(q, 32))); }
    return r;
  }
  std::string cstr(u64 a) { std::string r; for (;;) { Obj* o = objAt(a); if (!o || a - o->base >= o->size) return r; Val v = loadAt(o, a - o->base, 8); u8 c = v.e ? (u8)evalE(v.e, st->model) : (u8)v.c; if (!c || r.size() > 400) return r; r += (char)c; a++; } }
  std::string strn(u64 a, u64 n) { std::string r; for (u64 i = 0; i < n; i++) { Obj* o = objAt(a); if (!o || a - o->base >= o->size) return r; Val v = loadAt(o, a - o->base, 8); r += (char)(v.e ? (u8)evalE(v.e, st->model) : (u8)v.c); a++; } return r; }
  // heap
  Val heapAlloc(const Val& sz, u8 kind, u64 align, bool zero, bool nullOnBig) {
    E e = toE(sz, 64);
    if (e->op != O_CONST || e->k > O.maxAlloc) { if (decide(P.bin(O_ULT, P.cst(O.maxAlloc, 64), e))) { if (nullOnBig) return {0, nullptr}; throw PathEnd{END_ASSUME, "allocation above limit"}; } }
    u64 n = concretize(sz, 64); return {allocObj(n, kind, align, zero), nullptr};
  }
  void heapFree(u64 a, u8 kind, i64 size, i64 align) {
    Obj* o = objAt(a);
    if (!o) violate("memory", "free of invalid or already freed pointer " + hex(a));
    if (o->base != a) violate("memory", "free of interior pointer " + hex(a));
    if (o->kind != kind) violate("memory", std::string("allocation by ") + kindName[o->kind] + " released with " + kindName[kind]);
    if (size >= 0 && (u64)size != o->size) violate("memory", "sized deallocation of " + std::to_string(size) + " bytes for an allocation of " + std::to_string(o->size));
    if (align >= 0 && (u64)align != o->align) violate("memory", "deallocation with alignment " + std::to_string(align) + " of an allocation with alignment " + std::to_string(o->align));
    freeObj(a);
  }
  // ------------------------------------------------------------ frames
  Val* regs() { return st->regs.data() + st->fr.back().base; }
  void ensureDecoded(Function* f) { if (!f->decoded) { Decoder d(f); d.decode(); } }
  void pushFrame(Function* f, int retDst, u32 retN, const CallInfo* ci) {
    ensureDecoded(f);
    if (st->fr.size() > 2000) violate("stack", "recursion too deep");
    u32 base = st->fr.empty() ? 0 : st->fr.back().base + st->fr.back().f->nregs;
    if (st->regs.capacity() < base + f->nregs) st->regs.reserve((base + f->nregs) * 2 + 4096);
    st->regs.resize(base + f->nregs);
    st->fr.push_back({f, 0, 0, base, (u32)st->allocas.size(), retDst, retN, ci, 0}); f->execCount++;
  }
  void popFrame() {
    Frame& fr = st->fr.back();
    while (st->allocas.size() > fr.allocaBase) { freeObj(st->allocas.back()); st->allocas.pop_back(); }
    st->regs.resize(fr.base); st->fr.pop_back();
  }
  struct PSlot { u16 w; bool fp; bool vec; u8 ext; };
  static void flat(Type* t, u8 ext, std::vector<PSlot>& o) { t->slotify(); bool vec = t->k == T_VEC; for (auto& s : t->slots) o.push_back({s.w, s.fp, vec, ext}); }
  // convert values between two ABI-level views of the same argument/return list
  std::vector<Val> abiConvert(const std::vector<PSlot>& from, const std::vector<Val>& v, const std::vector<PSlot>& to) {
    bool same = from.size() == to.size(); if (same) for (size_t i = 0; i < to.size(); i++) if (from[i].w != to[i].w || from[i].fp != to[i].fp) same = false;
    if (same) return v;
    // split into integer and SSE eightbyte streams
    std::vector<Val> ints, sses; std::vector<unsigned> iw;
    auto pack = [&](const std::vector<PSlot>& d) { (void)d; };
    (void)pack;
    for (size_t i = 0; i < from.size();) {
      const PSlot& s = from[i];
      if (!s.fp) { E e = toE(v[i], s.w); if (s.w <= 64) { if (s.w < 64) e = s.ext == 2 ? P.sext(e, 64) : s.ext == 1 || s.w < 32 ? P.zext(e, 64) : P.concat(P.var("abihi", 64 - s.w), e); ints.push_back(fromE(e)); } else { ints.push_back(fromE(P.extract(e, 0, 64))); ints.push_back(fromE(P.extract(e, 64, 64))); } i++; continue; }
      if (s.vec && s.w == 32 && i + 1 < from.size() && from[i + 1].fp && from[i + 1].w == 32) { sses.push_back(fromE(P.concat(toE(v[i + 1], 32), toE(v[i], 32)))); i += 2; continue; }
      sses.push_back(s.w == 32 ? fromE(P.zext(toE(v[i], 32), 64)) : v[i]); i++;
    }
    std::vector<Val> r; size_t ii = 0, si = 0;
    auto nextInt = [&]() -> E { if (ii < ints.size()) return toE(ints[ii++], 64); ii++; return P.var("abimissing", 64); };
    auto nextSse = [&]() -> E { if (si < sses.size()) return toE(sses[si++], 64); si++; return P.var("abimissing", 64); };
    for (size_t i = 0; i < to.size();) {
      const PSlot& s = to[i];
      if (!s.fp) { if (s.w <= 64) r.push_back(fromE(P.extract(nextInt(), 0, s.w))); else { E lo = nextInt(); E hi = nextInt(); r.push_back(fromE(P.concat(hi, lo))); } i++; continue; }
      if (s.vec && s.w == 32 && i + 1 < to.size() && to[i + 1].fp && to[i + 1].w == 32) { E e = nextSse(); r.push_back(fromE(P.extract(e, 0, 32))); r.push_back(fromE(P.extract(e, 32, 32))); i += 2; continue; }
      E e = nextSse(); r.push_back(fromE(P.extract(e, 0, s.w))); i++;
    }
    return r;
  }
  void callFunction(Function* f, const CallInfo* ci, Args& a, int dst, u32 n) {
    ensureDecoded(f);
    // shapes
    bool same = ci && ci->args.size() == f->params.size();
    if (same) for (size_t i = 0; i < f->params.size(); i++) { Type* p = f->params[i].ty; Type* q = ci->args[i].ty; if (p != q) { if (p->nslots() != q->nslots()) { same = false; break; } for (u32 j = 0; j < p->nslots(); j++) if (p->slots[j].w != q->slots[j].w || p->slots[j].fp != q->slots[j].fp) same = false; } }
    Args conv;
    if (ci && !same && !f->vararg) {
      std::vector<PSlot> fs, ts; for (auto& x : ci->args) flat(x.ty, x.ext, fs); for (auto& p : f->params) flat(p.ty, p.ext, ts);
      conv = abiConvert(fs, a, ts);
    } else conv = a;
    // byval copies
    std::vector<u64> copies;
    size_t k = 0;
    for (size_t i = 0; i < f->params.size(); i++) { auto& p = f->params[i]; if (p.byval) { p.byval->layout(); u64 o = allocObj(p.byval->size, K_STACK, p.byval->align, false); memcpy_({o, nullptr}, conv[k], {p.byval->size, nullptr}); conv[k] = {o, nullptr}; copies.push_back(o); } k += p.ty->nslots(); }
    pushFrame(f, dst, n, ci);
    for (u64 o : copies) st->allocas.push_back(o);
    Val* R = regs(); k = 0;
    for (auto& p : f->params) { u32 ns = p.ty->nslots(); for (u32 j = 0; j < ns; j++) R[p.reg + j] = k < conv.size() ? conv[k] : Val{0, nullptr}, k++; }
    // fresh stack frames are not zeroed: every SSA value is written before it is read
  }
  void doReturn(std::vector<Val> v) {
    Frame fr = st->fr.back(); Function* f = fr.f;
    u64 exc = fr.onRetExc; popFrame();
    if (exc) { freeException(exc); }
    if (st->fr.empty()) throw PathEnd{END_RETURN, ""};
    Frame& c = st->fr.back();
    if (fr.retDst >= 0 && fr.retN) {
      Val* R = regs();
      if (v.size() != fr.retN || (fr.ci && fr.ci->ret != f->ret)) {
        std::vector<PSlot> fs, ts; if (f->ret->k != T_VOID) flat(f->ret, 0, fs); if (fr.ci) flat(fr.ci->ret, fr.ci->retExt, ts);
        v = abiConvert(fs, v, ts);
      }
      for (u32 i = 0; i < fr.retN && i < v.size(); i++) R[fr.retDst + i] = v[i];
    }
    if (fr.ci && fr.ci->normal >= 0) jump(fr.ci->normal); else c.pc++;
  }
  void jump(int b) {
    Frame& fr = st->fr.back(); Block& B = fr.f->blocks[b];
    if (!B.phis.empty()) {
      Val* R = regs(); static std::vector<Val> tmp; tmp.clear();
      for (auto& ph : B.phis) { const PhiEdge* e = nullptr; for (auto& x : ph.edges) if (x.pred == fr.blk) { e = &x; break; } if (!e) throw IrError("phi edge missing in " + std::string(fr.f->name)); for (u32 i = 0; i < ph.n; i++) tmp.push_back(e->src >= 0 ? R[e->src + i] : fr.f->consts[~e->src + i]); }
      size_t k = 0; for (auto& ph : B.phis) for (u32 i = 0; i < ph.n; i++) R[ph.dst + i] = tmp[k++];
    }
    fr.blk = b; fr.pc = B.start;
  }
  // ------------------------------------------------------------ exceptions
  void freeException(u64 obj) { st->excs.erase(obj); u64 base = obj - 128; if (objAt(base)) freeObj(base); }
  int tiId(u64 ti) { auto it = tiIds.find(ti); if (it != tiIds.end()) return it->second; int n = (int)tiIds.size() + 1; tiIds[ti] = n; return n; }
  std::string symName(u64 addr) { auto it = globalAt.find(addr >> WIN); return it == globalAt.end() ? "" : std::string(it->second->name); }
  bool tiMatch(u64 catchTi, u64 ti, u64& at) { // is ti (of the object at `at`) publicly derived from catchTi; `at` becomes the base's address
    if (catchTi == ti) return true; if (!ti) return false;
    std::string a = symName(catchTi), b = symName(ti); if (!a.empty() && a == b) return true;
    Obj* o = objAt(ti); if (!o || o->size < 16) return false;
    u64 vt = loadAt(o, ti - o->base, 64).c; std::string vn = symName(vt & ~((1ull << WIN) - 1));
    if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") return tiMatch(catchTi, loadAt(o, 16, 64).c, at);
    if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { u32 n = (u32)loadAt(o, 20, 32).c; for (u32 i = 0; i < n; i++) {
      i64 of = (i64)loadAt(o, 32 + 16 * i, 64).c; if (!(of & 2)) continue; u64 sub = at;
      if (of & 1) { u64 vp = concretize(load({at, nullptr}, 64), 64); sub += concretize(load({vp + (u64)(of >> 8), nullptr}, 64), 64); } else sub += (u64)(of >> 8);
      if (tiMatch(catchTi, loadAt(o, 24 + 16 * i, 64).c, sub)) { at = sub; return true; } } }
    return false;
  }
  // returns: 0 no entry, 1 cleanup only, 2 handler; sel = selector
  int padKind(Frame& fr, const Exc& x, int& sel, u64& at) {
    const Instr& I = fr.f->code[fr.pc]; if (I.op != I_CALL) return 0; CallInfo* ci = (CallInfo*)I.x; if (ci->unwind < 0) return 0;
    Block& B = fr.f->blocks[ci->unwind]; const Instr& lpI = fr.f->code[B.start];
    if (lpI.op != I_LANDINGPAD) throw IrError("unwind target without landingpad");
    LPInfo* lp = (LPInfo*)lpI.x; sel = 0; at = x.obj;
    for (auto& c : lp->cl) {
      if (c.filter) { bool m = false; for (u64 t : c.tis) if (t == 0 || (!x.rust && tiMatch(t, x.ti, at = x.obj))) m = true; if (!m) { sel = -1; return 2; } }
      else { u64 t = c.tis[0]; if (t == 0 || (!x.rust && tiMatch(t, x.ti, at = x.obj))) { sel = tiId(t); return 2; } }
    }
    return lp->cleanup ? 1 : 0;
  }
  // start unwinding; current frame's current instruction is the raising call. pop=true when resuming out of the current frame
  bool unwind(u64 excPtr, bool fromResume) {
    State& s = *st; Exc& x = s.excs[excPtr];
    if (!fromResume) { // phase 1
      bool handler = false; std::string barrier;
      for (size_t i = s.fr.size(); i-- > 0;) { Frame& fr = s.fr[i]; if (fr.onRetExc) { barrier = "destructor of exception"; break; } int sel; u64 at; int k = padKind(fr, x, sel, at); if (k == 2) { handler = true; break; } if (k == 0) { const Instr& I = fr.f->code[fr.pc]; CallInfo* ci = I.op == I_CALL ? (CallInfo*)I.x : nullptr; if ((ci && ci->unwind < 0 && ci->nounwind && i + 1 != s.fr.size()) || (fr.f->nounwind)) { barrier = std::string(fr.f->name); break; } } }
      if (!handler) { if (x.rust && barrier.empty()) return false; abortPath(barrier.empty() ? "std::terminate: uncaught exception" : "std::terminate: exception leaves a non-throwing frame " + barrier); }
      s.uncaught++;
    } else { if (s.fr.back().onRetExc) abortPath("terminate: exception from exception destructor"); popFrame(); }
    while (!s.fr.empty()) {
      Frame& fr = s.fr.back(); int sel; u64 at; int k = padKind(fr, x, sel, at);
      if (k) { x.adj = at; CallInfo* ci = (CallInfo*)fr.f->code[fr.pc].x; s.curExc = x.rust ? excPtr : excPtr - 32; s.curSel = sel; jump(ci->unwind); return true; }
      if (fr.onRetExc) abortPath("terminate");
      popFrame();
    }
    abortPath("std::terminate: uncaught exception");
  }
  u64 excOf(u64 uw) { if (st->excs.count(uw) && st->excs[uw].rust) return uw; return uw + 32; }
  [[noreturn]] void abortPath(const std::string& why) {
    abortMsgs[why]++;
    if (st->expectAbort) throw PathEnd{END_ABORT_OK, why};
    violate("abort", why);
  }
  // ------------------------------------------------------------ arithmetic
  Val bin1(Op op, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) {
      u64 x = a.c, y = b.c, m = mask64(w); 
      switch (op) {
        case O_ADD: return {(x + y) & m, nullptr}; case O_SUB: return {(x - y) & m, nullptr}; case O_MUL: return {(x * y) & m, nullptr};
        case O_AND: return {x & y, nullptr}; case O_OR: return {x | y, nullptr}; case O_XOR: return {x ^ y, nullptr};
        case O_SHL: return {y >= w ? 0 : (x << y) & m, nullptr}; case O_LSHR: return {y >= w ? 0 : x >> y, nullptr};
        case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: if (!y) violate("arith", "division by zero"); 
        default: return {(u64)ExprPool::fold(op, x, y, w), nullptr};
      }
    }
    if (op >= O_UDIV && op <= O_SREM) { E z = P.eq(toE(b, w), P.cst(0, w)); if (z->op != O_CONST ? decide(z) : z->k) violate("arith", "division by zero"); }
    return fromE(P.bin(op, toE(a, w), toE(b, w)));
  }
  Val icmp1(int pred, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) { u64 x = a.c, y = b.c; i64 s = sext64(x, w), t = sext64(y, w); bool r = false; switch (pred) { case 0: r = x == y; break; case 1: r = x != y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = s > t; break; case 7: r = s >= t; break; case 8: r = s < t; break; case 9: r = s <= t; break; } return {r, nullptr}; }
    E x = toE(a, w), y = toE(b, w), r = nullptr;
    switch (pred) { case 0: r = P.eq(x, y); break; case 1: r = P.lnot(P.eq(x, y)); break; case 2: r = P.bin(O_ULT, y, x); break; case 3: r = P.bin(O_ULE, y, x); break; case 4: r = P.bin(O_ULT, x, y); break; case 5: r = P.bin(O_ULE, x, y); break; case 6: r = P.bin(O_SLT, y, x); break; case 7: r = P.bin(O_SLE, y, x); break; case 8: r = P.bin(O_SLT, x, y); break; case 9: r = P.bin(O_SLE, x, y); break; }
    return fromE(r);
  }
  E isNaN(E x) { return P.lnot(P.fop(O_FEQ, x, x, 1)); }
  Val fcmp1(int pred, const Val& a, const Val& b, unsigned w) {
    E x = toE(a, w), y = toE(b, w); if (w != 32 && w != 64) throw PathEnd{END_UNSUPPORTED, "fcmp width"};
    E uno = P.bor(isNaN(x), isNaN(y)); E r = nullptr; int p = pred & 7; bool un = pred >= 8;
    if (pred == 0) return {0, nullptr}; if (pred == 15) return {1, nullptr}; if (pred == 7) return fromE(P.lnot(uno)); if (pred == 8) return fromE(uno);
    switch (p) { case 1: r = P.fop(O_FEQ, x, y, 1); break; case 2: r = P.fop(O_FLT, y, x, 1); break; case 3: r = P.fop(O_FLE, y, x, 1); break; case 4: r = P.fop(O_FLT, x, y, 1); break; case 5: r = P.fop(O_FLE, x, y, 1); break; case 6: r = P.bor(P.fop(O_FLT, x, y, 1), P.fop(O_FLT, y, x, 1)); break; }
    if (un) r = P.bor(uno, r); return fromE(r);
  }
  // ------------------------------------------------------------ run
  void runState();
  void step(const Instr& I, Frame& fr, Val* R);
  void doCall(const Instr& I, Frame& fr, Val* R);
  void intrinsic(sv name, const CallInfo& ci, Args& a, std::vector<Val>& r);
  void initBuiltins();
  void run(Function* entry);
  void json(const char* path, const std::string& entry);
};
#include "builtins.h"

inline const Val& opv(const Frame& fr, Val* R, int i) { return i >= 0 ? R[i] : fr.f->consts[~i]; }

void Ex::doCall(const Instr& I, Frame& fr, Val* R) {
  CallInfo* ci = (CallInfo*)I.x;
  Args a; a.reserve(8);
  for (auto& g : ci->args) { u32 n = g.ty->k == T_META ? 0 : g.ty->nslots(); for (u32 j = 0; j < n; j++) a.push_back(g.r >= 0 ? R[g.r + j] : fr.f->consts[~g.r + j]); }
  if (ci->isAsm) {
    std::vector<Val> r; if (ci->asmText.find("cpuid") != std::string::npos || ci->asmText.find("xgetbv") != std::string::npos) { for (u32 i = 0; i < I.n; i++) r.push_back(cval(0, ci->ret->slots[i].w)); }
    else if (ci->asmText.substr(0, 3) == " | " || ci->asmText.find("pause") != std::string::npos || ci->asmText[0] == '#') { for (u32 i = 0; i < I.n; i++) r.push_back(i < a.size() ? a[i] : cval(0, ci->ret->slots[i].w)); }
    else throw PathEnd{END_UNSUPPORTED, "inline asm " + ci->asmText};
    for (u32 i = 0; i < I.n; i++) R[I.dst + i] = r[i];
    if (ci->normal >= 0) jump(ci->normal); else fr.pc++; return;
  }
  Function* f = ci->fn; int bi = ci->builtin;
  if (!ci->resolved || ci->indirect) {
    if (ci->indirect || ci->name.empty()) {
      u64 addr = ci->indirect ? concretize(R[ci->calleeReg], 64) : ci->calleeAddr;
      f = L.fnAt(addr); if (!f) violate("memory", "call through invalid function pointer " + hex(addr));
      bi = -2;
      if (f->builtin == -2) { auto it = biIndex.find(std::string(f->name)); f->builtin = it == biIndex.end() ? -1 : it->second; if (f->builtin < 0 && f->decl) { Function* g = L.findFn(f->mod, f->name); if (g) f = g; } }
      bi = f->builtin;
      if (bi < 0 && f->decl) { Function* g = L.findFn(f->mod, f->name); if (g && !g->decl) f = g; }
    } else {
      ci->resolved = true;
      auto it = biIndex.find(std::string(ci->name));
      if (it == biIndex.end()) { // Rust allocator shim symbols carry a crate hash
        static const char* suf[] = {"___rust_alloc", "___rust_dealloc", "___rust_realloc", "___rust_alloc_zeroed", "___rust_no_alloc_shim_is_unstable", "___rust_no_alloc_shim_is_unstable_v2", "___rust_alloc_error_handler", "___rust_alloc_error_handler_should_panic", "___rust_alloc_error_handler_should_panic_v2"};
        for (auto s : suf) { sv x(s); if (ci->name.size() > x.size() && ci->name.substr(ci->name.size() - x.size()) == x) { it = biIndex.find(s + 1); break; } }
      }
      // The hash of a key under RandomState is unspecified: any function of the key will do, and a constant keeps symbolic keys symbolic.
      if (it == biIndex.end() && O.constHash && ci->name.find("RandomState") != sv::npos && ci->name.find("8hash_one") != sv::npos) it = biIndex.find("symx_constant_hash");
      if (it != biIndex.end()) bi = ci->builtin = it->second;
      else if (ci->name.substr(0, 5) == "llvm.") bi = ci->builtin = -3;
      else { f = L.findFn(fr.f->mod, ci->name); if (!f) {
          // alias?
          u64 addr = L.symAddr(fr.f->mod, ci->name); f = L.fnAt(addr); }
        ci->fn = f; bi = ci->builtin = -1; }
    }
  }
  if (bi == -3) {
    std::vector<Val> r; intrinsic(ci->name, *ci, a, r);
    if (st->fr.empty()) return;
    for (u32 i = 0; i < I.n && i < r.size(); i++) regs()[I.dst + i] = r[i];
    if (ci->normal >= 0) jump(ci->normal); else st->fr.back().pc++;
    return;
  }
  if (bi >= 0) {
    std::vector<Val> r(std::max<u32>(I.n, 1)); for (u32 i = 0; i < I.n; i++) r[i] = cval(0, ci->ret->slots[i].w);
    doneCall = false; bis[bi](*this, *ci, a, r.data(), ci->ret);
    if (doneCall) return;
    for (u32 i = 0; i < I.n; i++) regs()[I.dst + i] = r[i];
    if (ci->normal >= 0) jump(ci->normal); else st->fr.back().pc++;
    return;
  }
  if (!f || f->decl) throw PathEnd{END_UNSUPPORTED, "external function " + std::string(f ? f->name : ci->name)};
  callFunction(f, ci, a, I.n ? I.dst : -1, I.n);
}

void Ex::step(const Instr& I, Frame& fr, Val* R) {
#define V(i) opv(fr, R, (i))
  switch (I.op) {
    case I_BIN: if (I.n == 1) R[I.dst] = bin1((Op)I.sub, V(I.a), V(I.b), I.w); else { std::vector<Val> t(I.n); for (u32 i = 0; i < I.n; i++) t[i] = bin1((Op)I.sub, (&V(I.a))[i], (&V(I.b))[i], I.w); for (u32 i = 0; i < I.n; i++) R[I.dst + i] = t[i]; } break;
    case I_FBIN: for (u32 i = 0; i < I.n; i++) { if (I.w != 32 && I.w != 64) throw PathEnd{END_UNSUPPORTED, "fp width"}; R[I.dst + i] = fromE(P.fop((Op)I.sub, toE((&V(I.a))[i], I.w), toE((&V(I.b))[i], I.w), I.w)); } break;
    case I_FNEG: for (u32 i = 0; i < I.n; i++) R[I.dst + i] = fromE(P.bin(O_XOR, toE((&V(I.a))[i], I.w), P.cst((u128)1 << (I.w - 1), I.w))); break;
    case I_ICMP: if (I.n == 1) R[I.dst] = icmp1(I.sub, V(I.a), V(I.b), I.w); else { std::vector<Val> t(I.n); for (u32 i = 0; i < I.n; i++) t[i] = icmp1(I.sub, (&V(I.a))[i], (&V(I.b))[i], I.w); for (u32 i = 0; i < I.n; i++) R[I.dst + i] = t[i]; } break;
    case I_FCMP: for (u32 i = 0; i < I.n; i++) R[I.dst + i] = fcmp1(I.sub, (&V(I.a))[i], (&V(I.b))[i], I.w); break;
    case I_CAST: for (u32 i = 0; i < I.n; i++) {
        const Val v = (&V(I.a))[i]; unsigned sw = I.b, w = I.w; Val r;
        switch (I.sub) {
          case C_TRUNC: r = v.e ? fromE(P.extract(v.e, 0, w)) : Val{v.c & mask64(w), nullptr}; break;
          case C_ZEXT: r = v.e ? fromE(P.zext(v.e, w)) : w > 64 ? Val{0, P.cst(v.c, w)} : v; break;
          case C_SEXT: r = v.e ? fromE(P.sext(v.e, w)) : w > 64 ? Val{0, P.cst((u128)(i128)sext64(v.c, sw), w)} : Val{(u64)sext64(v.c, sw) & mask64(w), nullptr}; break;
          case C_FPTRUNC: case C_FPEXT: r = fromE(P.fop(O_FTOF, toE(v, sw), nullptr, w)); break;
          case C_FPTOUI: r = fromE(P.fop(O_FTOU, toE(v, sw), nullptr, w)); break; case C_FPTOSI: r = fromE(P.fop(O_FTOS, toE(v, sw), nullptr, w)); break;
          case C_UITOFP: r = fromE(P.fop(O_UTOF, toE(v, sw), nullptr, w)); break; case C_SITOFP: r = fromE(P.fop(O_STOF, toE(v, sw), nullptr, w)); break;
        }
        R[I.dst + i] = r; } break;
    case I_BITCAST: {
        u32 sn = I.c, dn = I.n; unsigned sw = I.b, dw = I.w; std::vector<Val> t(dn);
        if (sn == dn) { for (u32 i = 0; i < dn; i++) t[i] = (&V(I.a))[i]; }
        else if (sn * sw <= 128) { E e = nullptr; for (u32 i = 0; i < sn; i++) { E x = toE((&V(I.a))[i], sw); e = e ? P.concat(x, e) : x; } for (u32 i = 0; i < dn; i++) t[i] = fromE(P.extract(e, i * dw, dw)); }
        else if (sw % dw == 0) { u32 r = sw / dw; for (u32 i = 0; i < sn; i++) { E x = toE((&V(I.a))[i], sw); for (u32 j = 0; j < r; j++) t[i * r + j] = fromE(P.extract(x, j * dw, dw)); } }
        else if (dw % sw == 0) { u32 r = dw / sw; for (u32 i = 0; i < dn; i++) { E e = nullptr; for (u32 j = 0; j < r; j++) { E x = toE((&V(I.a))[i * r + j], sw); e = e ? P.concat(x, e) : x; } t[i] = fromE(e); } }
        else throw PathEnd{END_UNSUPPORTED, "bitcast"};
        for (u32 i = 0; i < dn; i++) R[I.dst + i] = t[i]; break; }
    case I_SELECT: {
        Type* ty = (Type*)I.x; std::vector<Val> t(I.n);
        for (u32 i = 0; i < I.n; i++) { const Val& c = (&V(I.a))[I.sub ? i : 0]; const Val& x = (&V(I.b))[i]; const Val& y = (&V(I.c))[i]; if (!c.e) t[i] = c.c ? x : y; else t[i] = fromE(P.ite(c.e, toE(x, ty->slots[i].w), toE(y, ty->slots[i].w))); }
        for (u32 i = 0; i < I.n; i++) R[I.dst + i] = t[i]; break; }
    case I_LOAD: {
        Type* ty = (Type*)I.x; 
        if (I.n == 1) { R[I.dst] = load(V(I.a), I.w); break; }
        if (ty->k == T_VEC && ty->slots[0].w % 8) { unsigned w = ty->slots[0].w; Val v = load(V(I.a), I.n * w); for (u32 i = 0; i < I.n; i++) R[I.dst + i] = fromE(P.extract(toE(v, I.n * w), i * w, w)); break; }
        u64 a = concretize(V(I.a), 64); if (I.n) resolve({a, nullptr}, ty->slots.back().off + (ty->slots.back().w + 7) / 8, false, false, "read"); for (u32 i = 0; i < I.n; i++) R[I.dst + i] = load({a + ty->slots[i].off, nullptr}, ty->slots[i].w); break; }
    case I_STORE: {
        Type* ty = (Type*)I.x;
        if (I.n == 1) { store(V(I.a), V(I.b), ty->slots[0].w); break; }
        if (ty->k == T_VEC && ty->slots[0].w % 8) { unsigned w = ty->slots[0].w; E e = nullptr; for (u32 i = 0; i < I.n; i++) { E x = toE((&V(I.b))[i], w); e = e ? P.concat(x, e) : x; } store(V(I.a), fromE(e), I.n * w); break; }
        u64 a = concretize(V(I.a), 64); for (u32 i = 0; i < I.n; i++) store({a + ty->slots[i].off, nullptr}, (&V(I.b))[i], ty->slots[i].w); break; }
    case I_GEP: {
        GepInfo* g = (GepInfo*)I.x; Val b = V(I.a);
        u64 c = g->base; E e = b.e; if (!b.e) c += b.c;
        for (auto& t : g->terms) { const Val& v = R[t.r]; if (!v.e) c += (u64)sext64(v.c, t.w) * t.scale; else { E x = t.w < 64 ? P.sext(v.e, 64) : P.extract(v.e, 0, 64); x = P.bin(O_MUL, x, P.cst((u64)t.scale, 64)); e = e ? P.bin(O_ADD, e, x) : x; } }
        if (!e) R[I.dst] = {c, nullptr}; else R[I.dst] = fromE(P.bin(O_ADD, e, P.cst(c, 64))); break; }
    case I_ALLOCA: { Type* ty = (Type*)I.x; u64 n = concretize(V(I.a), I.w); u64 o = allocObj(n * ty->size, K_STACK, I.n, false); st->allocas.push_back(o); R = regs(); R[I.dst] = {o, nullptr}; break; }
    case I_COPY: if (I.sub) { for (u32 i = 0; i < I.n; i++) R[I.dst + i] = (&V(I.a))[I.b + i]; } else for (u32 i = 0; i < I.n; i++) R[I.dst + i] = (&V(I.a))[i]; break;
    case I_INSERTV: { std::vector<Val> t(I.n); for (u32 i = 0; i < I.n; i++) t[i] = (&V(I.a))[i]; for (u32 i = 0; i < I.w; i++) t[I.c + i] = (&V(I.b))[i]; for (u32 i = 0; i < I.n; i++) R[I.dst + i] = t[i]; break; }
    case I_EXTRACTE: { const Val& ix = V(I.b); if (!ix.e) { R[I.dst] = (&V(I.a))[ix.c % I.n]; } else { E r = toE((&V(I.a))[0], I.w); for (u32 i = 1; i < I.n; i++) r = P.ite(P.eq(ix.e, P.cst(i, I.c)), toE((&V(I.a))[i], I.w), r); R[I.dst] = fromE(r); } break; }
    case I_INSERTE: { u64 ix = concretize(V(I.c), 64); std::vector<Val> t(I.n); for (u32 i = 0; i < I.n; i++) t[i] = (&V(I.a))[i]; if (ix < I.n) t[ix] = V(I.b); for (u32 i = 0; i < I.n; i++) R[I.dst + i] = t[i]; break; }
    case I_SHUFFLE: { IdxInfo* ii = (IdxInfo*)I.x; std::vector<Val> t; for (int k : ii->idx) { u32 u = (u32)k; if (u >= 2 * I.n) u = 0; t.push_back(u < I.n ? (&V(I.a))[u] : (&V(I.b))[u - I.n]); } for (size_t i = 0; i < t.size(); i++) R[I.dst + i] = t[i]; break; }
    case I_BR: jump(I.a); return;
    case I_CBR: { const Val& c = V(I.a); bool t = c.e ? decide(c.e) : (c.c & 1); jump(t ? I.b : I.c); return; }
    case I_SWITCH: {
        SwitchInfo* si = (SwitchInfo*)I.x; const Val v = V(I.a);
        if (!v.e) { auto it = si->fast.find(v.c); jump(it == si->fast.end() ? si->def : it->second); return; }
        // group cases by target to limit forking
        u128 k = evalE(v.e, st->model); int tgt = si->def; for (auto& c : si->cases) if (c.first == k) tgt = c.second;
        E cond = P.F; if (tgt != si->def) { for (auto& c : si->cases) if (c.second == tgt) cond = P.bor(cond, P.eq(v.e, P.cst(c.first, I.w))); }
        else { for (auto& c : si->cases) if (c.second != tgt) cond = P.bor(cond, P.eq(v.e, P.cst(c.first, I.w))); cond = P.lnot(cond); }
        decide(cond); jump(tgt); return; }
    case I_RET: { std::vector<Val> v; for (u32 i = 0; i < I.n; i++) v.push_back((&V(I.a))[i]); doReturn(std::move(v)); return; }
    case I_UNREACHABLE: violate("ub", "unreachable code reached in " + std::string(fr.f->name));
    case I_CALL: doCall(I, fr, R); return;
    case I_LANDINGPAD: R[I.dst] = {st->curExc, nullptr}; R[I.dst + 1] = {(u64)(u32)st->curSel, nullptr}; break;
    case I_RESUME: { u64 p = concretize(V(I.a), 64); unwind(excOf(p), true); return; }
    case I_CMPXCHG: { Val old = load(V(I.a), I.w); Val eq = icmp1(0, old, V(I.b), I.w); bool y = eq.e ? decide(eq.e) : eq.c; Val n = V(I.c); if (y) store(V(I.a), n, I.w); R[I.dst] = old; R[I.dst + 1] = {y, nullptr}; break; }
    case I_ATOMICRMW: { Val addr = V(I.a), v = V(I.b); Val old = load(addr, I.w); Val n; switch (I.sub) { case 100: n = v; break; case 101: n = fromE(P.ite(toE(icmp1(6, old, v, I.w), 1), toE(old, I.w), toE(v, I.w))); break; case 102: n = fromE(P.ite(toE(icmp1(8, old, v, I.w), 1), toE(old, I.w), toE(v, I.w))); break; case 103: n = fromE(P.ite(toE(icmp1(2, old, v, I.w), 1), toE(old, I.w), toE(v, I.w))); break; case 104: n = fromE(P.ite(toE(icmp1(4, old, v, I.w), 1), toE(old, I.w), toE(v, I.w))); break; case 105: n = fromE(P.bin(O_XOR, toE(bin1(O_AND, old, v, I.w), I.w), P.cst(~(u128)0, I.w))); break; default: n = bin1((Op)I.sub, old, v, I.w); } store(addr, n, I.w); R[I.dst] = old; break; }
    case I_FENCE: break;
    case I_UNSUPPORTED: throw PathEnd{END_UNSUPPORTED, ((StrInfo*)I.x)->s};
    default: throw PathEnd{END_UNSUPPORTED, "op"};
  }
  st->fr.back().pc++;
#undef V
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
void Ex::runState() {
  State& s = *st; u64 lastCheck = 0;
  for (;;) {
    Frame& fr = s.fr.back(); const Instr& I = fr.f->code[fr.pc]; curI = &I;
    s.steps++; totalSteps++;
    step(I, fr, s.regs.data() + fr.base);
    s.known.clear();
    if (totalSteps - lastCheck > 4096) { lastCheck = totalSteps; if (s.steps > O.maxPathSteps) throw PathEnd{END_LIMIT, "path step limit"}; if (totalSteps > O.maxSteps) throw PathEnd{END_LIMIT, "step limit"}; if (now() - t0 > O.maxTime) throw PathEnd{END_LIMIT, "time limit"}; }
  }
}
void Ex::run(Function* entry) {
  t0 = now(); st = new State; work.push_back(st);
  { State* s = st; work.pop_back(); st = s; Args none; CallInfo* ci = new CallInfo; ci->ret = TC.voidT; callFunction(entry, ci, none, -1, 0); work.push_back(s); }
  bool stop = false;
  while (!work.empty() && !stop) {
    st = work.back(); work.pop_back();
    try { runState(); }
    catch (PathEnd& e) {
      endCount[e.kind]++; if (e.kind != END_ASSUME) paths++;
      if (O.verbose > 1) fprintf(stderr, "symx: path %s %s\n", endName[e.kind], e.msg.c_str());
      if (e.kind == END_UNSUPPORTED || e.kind == END_LIMIT) { unsupported[e.msg]++; if (O.verbose || unsupported[e.msg] == 1) { fprintf(stderr, "symx: incomplete path: %s\n", e.msg.c_str()); for (size_t i = st->fr.size(); i-- > 0 && st->fr.size() - i < 30;) fprintf(stderr, "    at %s\n", std::string(st->fr[i].f->name).c_str()); if (e.kind == END_LIMIT) for (auto& p : concreteInputs(st->model)) fprintf(stderr, "    %s = %s\n", p.first.c_str(), p.second.c_str()); } }
      if (e.kind == END_RETURN || e.kind == END_ABORT_OK) { okEnds++; if (okEnds >= nextSample && samples.size() < 48) { samples.push_back(concreteInputs(st->model)); nextSample = okEnds + 1 + okEnds / 6; } }
      if ((int)viol.size() >= O.maxViol) stop = true;
      if (paths >= O.maxPaths) { unsupported["path limit"]++; stop = true; }
      if (e.kind == END_LIMIT && (e.msg == "time limit" || e.msg == "step limit")) stop = true;
    }
    delete st; st = nullptr;
  }
  if (!work.empty()) { unsupported["unexplored states"] += work.size(); }
}
static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
void Ex::json(const char* path, const std::string& entry) {
  for (auto& p : qprof) fprintf(stderr, "QPROF %6llu %8.2fs %s\n", (unsigned long long)p.second.first, p.second.second, p.first.c_str());
  FILE* f = fopen(path, "w"); if (!f) return;
  fprintf(f, "{\"entry\":%s,\"paths\":%llu,\"forks\":%llu,\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"finite\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"symbols\":%zu,\"exprs\":%zu", jstr(entry).c_str(), (unsigned long long)paths, (unsigned long long)forks, (unsigned long long)totalSteps, (unsigned long long)ST.queries, (unsigned long long)ST.sat, (unsigned long long)ST.unsat, (unsigned long long)ST.unknown, (unsigned long long)ST.cacheHits, (unsigned long long)ST.finite, ST.solverTime, now() - t0, P.vars.size(), P.count);
  fprintf(f, ",\"ends\":{"); bool c = false; for (int i = 0; i <= END_LIMIT; i++) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", endName[i], (unsigned long long)endCount[i]); c = true; } fprintf(f, "}");
  auto mp = [&](const char* n, std::map<std::string, u64>& m) { fprintf(f, ",\"%s\":{", n); bool c = false; for (auto& p : m) { fprintf(f, "%s%s:%llu", c ? "," : "", jstr(p.first).c_str(), (unsigned long long)p.second); c = true; } fprintf(f, "}"); };
  mp("reach", reach); mp("asserts", asserts); mp("asserts_symbolic", assertSym); mp("incomplete", unsupported); mp("aborts", abortMsgs);
  fprintf(f, ",\"functions\":["); c = false; for (auto m : L.mods) for (auto& p : m->lf) if (p.second->execCount) { fprintf(f, "%s[%s,%llu,%s]", c ? "," : "", jstr(std::string(p.second->name)).c_str(), (unsigned long long)p.second->execCount, jstr(m->path.substr(m->path.rfind('/') + 1)).c_str()); c = true; } fprintf(f, "]");
  fprintf(f, ",\"samples\":["); c = false; for (auto& s : samples) { fprintf(f, "%s{", c ? "," : ""); c = true; bool d = false; int i = 0; for (auto& p : s) { fprintf(f, "%s%s:%s", d ? "," : "", jstr(p.first + "#" + std::to_string(i++)).c_str(), jstr(p.second).c_str()); d = true; } fprintf(f, "}"); } fprintf(f, "]");
  fprintf(f, ",\"violations\":["); c = false; for (auto& v : viol) { fprintf(f, "%s{\"kind\":%s,\"id\":%s,\"msg\":%s,\"inputs\":[", c ? "," : "", jstr(v.kind).c_str(), jstr(v.id).c_str(), jstr(v.msg).c_str()); c = true; bool d = false; for (auto& p : v.inputs) { fprintf(f, "%s[%s,%s]", d ? "," : "", jstr(p.first).c_str(), jstr(p.second).c_str()); d = true; } fprintf(f, "],\"stack\":["); d = false; for (auto& s : v.stack) { fprintf(f, "%s%s", d ? "," : "", jstr(s).c_str()); d = true; } fprintf(f, "],\"notes\":["); d = false; for (auto& s : v.notes) { fprintf(f, "%s%s", d ? "," : "", jstr(s).c_str()); d = true; } fprintf(f, "]}"); } fprintf(f, "]}\n"); fclose(f);
}
struct MainArgs { int argc; char** argv; int rc; };
static int realMain(int argc, char** argv) {
  std::string entry, out; std::vector<std::string> files;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--json") out = nx(); else if (a == "--max-time") O.maxTime = atof(nx().c_str()); else if (a == "--max-paths") O.maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--max-steps") O.maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--max-path-steps") O.maxPathSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--max-alloc") O.maxAlloc = strtoull(nx().c_str(), 0, 10); else if (a == "--max-viol") O.maxViol = atoi(nx().c_str()); else if (a == "-v") O.verbose++; else if (a == "--const-hash") O.constHash = true; else if (a == "--override") { std::string t = nx(); size_t i = 0; while (i <= t.size()) { size_t j = t.find(',', i); if (j == std::string::npos) j = t.size(); O.overrides.push_back(t.substr(i, j - i)); i = j + 1; } } else if (a == "--tier") O.tier = atoi(nx().c_str()); else if (a == "--list") { FILE* lf = fopen(nx().c_str(), "r"); char b[4096]; while (lf && fgets(b, sizeof b, lf)) { b[strcspn(b, "\n")] = 0; if (*b) files.push_back(b); } if (lf) fclose(lf); } else files.push_back(a); }
  try {
    Ex* ex = new Ex; L.placeGlobal = [ex](Global* g) { return ex->placeGlobal(g); };
    for (auto& f : files) L.load(f);
    ex->initBuiltins();
    for (auto& n : O.overrides) { Function* g = L.findFn(nullptr, n); if (!g || g->decl) throw std::runtime_error("--override " + n + ": not defined"); ex->biIndex.erase(n); } // the harness models these itself
    Function* f = L.findFn(nullptr, entry); if (!f) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 3; }
    ex->run(f);
    if (!out.empty()) ex->json(out.c_str(), entry);
    fprintf(stderr, "symx: %s: paths=%llu forks=%llu steps=%llu queries=%llu solver=%.2fs wall=%.2fs violations=%zu incomplete=%zu asserts=%zu\n", entry.c_str(), (unsigned long long)ex->paths, (unsigned long long)ex->forks, (unsigned long long)ex->totalSteps, (unsigned long long)ST.queries, ST.solverTime, now() - ex->t0, ex->viol.size(), ex->unsupported.size(), ex->asserts.size());
    if (!ex->viol.empty()) return 1; if (!ex->unsupported.empty()) return 2; return 0;
  } catch (std::exception& e) { fprintf(stderr, "symx: fatal: %s\n", e.what()); return 3; }
}
int main(int argc, char** argv) {
  MainArgs a{argc, argv, 0}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2048ull << 20); pthread_t t;
  pthread_create(&t, &at, [](void* p) -> void* { auto* a = (MainArgs*)p; a->rc = realMain(a->argc, a->argv); fflush(nullptr); _exit(a->rc); return nullptr; }, &a); pthread_join(t, nullptr); return a.rc;
}
