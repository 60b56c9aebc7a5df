// State, memory and execution.
#pragma once
#include "ir.h"
#include "solver.h"
#include <sys/resource.h>

enum Kind : u8 { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_RUST, K_EXC };
static const char* kindName[] = {"global", "stack", "malloc", "operator new", "operator new[]", "Rust allocator", "exception"};
static inline E UNMARK() { static Expr u{}; return &u; }

struct Obj {
  int rc; u64 base, size; u64 align; u8 kind; bool ro; u8* d; u8* st; std::vector<E> sym;
  static Obj* make(u64 base, u64 size, u8 kind, bool init) { Obj* o = new Obj; o->rc = 1; o->base = base; o->size = size; o->align = 1; o->kind = kind; o->ro = false; o->d = (u8*)calloc(1, 2 * size + 16); o->st = o->d + size + 8; if (!init) memset(o->st, 2, size); return o; }
  Obj* clone() { Obj* o = new Obj; o->rc = 1; o->base = base; o->size = size; o->align = align; o->kind = kind; o->ro = ro; o->d = (u8*)malloc(2 * size + 16); memcpy(o->d, d, 2 * size + 16); o->st = o->d + size + 8; o->sym = sym; return o; }
  void unref() { if (--rc == 0) { free(d); delete this; } }
};
struct Leaf { int rc; Obj* o[256]; };
struct Mid { int rc; Leaf* l[512]; };
static const unsigned WIN = 20; // address window bits per object
struct Mem {
  Mid* root[1024];
  Mem() { memset(root, 0, sizeof root); }
  Mem(const Mem& m) { memcpy(root, m.root, sizeof root); for (auto r : root) if (r) r->rc++; }
  static void dl(Leaf* l) { if (--l->rc == 0) { for (auto o : l->o) if (o) o->unref(); delete l; } }
  static void dm(Mid* m) { if (--m->rc == 0) { for (auto l : m->l) if (l) dl(l); delete m; } }
  ~Mem() { for (auto r : root) if (r) dm(r); }
  Obj* get(u64 slot) const { Mid* m = root[(slot >> 17) & 1023]; if (!m) return nullptr; Leaf* l = m->l[(slot >> 8) & 511]; return l ? l->o[slot & 255] : nullptr; }
  Obj*& ref(u64 slot) {
    Mid*& m = root[(slot >> 17) & 1023];
    if (!m) { m = new Mid; memset(m, 0, sizeof *m); m->rc = 1; }
    else if (m->rc > 1) { Mid* n = new Mid(*m); n->rc = 1; for (auto l : n->l) if (l) l->rc++; m->rc--; m = n; }
    Leaf*& l = m->l[(slot >> 8) & 511];
    if (!l) { l = new Leaf; memset(l, 0, sizeof *l); l->rc = 1; }
    else if (l->rc > 1) { Leaf* n = new Leaf(*l); n->rc = 1; for (auto o : n->o) if (o) o->rc++; l->rc--; l = n; }
    return l->o[slot & 255];
  }
  Obj* write(u64 slot) { Obj*& o = ref(slot); if (o && o->rc > 1) { Obj* n = o->clone(); o->rc--; o = n; } return o; }
};

struct Frame { Function* f; int pc; int blk; u32 base; u32 allocaBase; int retDst; u32 retN; const CallInfo* ci; u64 onRetExc; };
struct Exc { u64 obj = 0, ti = 0, dtor = 0, adj = 0; int handlers = 0; bool rust = false; };
struct Input { std::string name; u32 w; E e; u64 n; bool isBytes; std::vector<E> bytes; bool fixed = false; };

struct State {
  Mem mem; std::vector<Frame> fr; std::vector<Val> regs; std::vector<u64> allocas;
  std::vector<E> cs; std::vector<E> known; Model model; std::unordered_map<E, E> fixed; u64 fixedVer = 0; // fixed: expressions whose value the path condition determines
  u64 nextSlot = 1ull << 22; u64 steps = 0; i64 live[8] = {0}; 
  std::vector<Input> inputs; std::unordered_map<u64, Exc> excs; std::vector<u64> caught; u64 curExc = 0; int curSel = 0; int uncaught = 0;
  int expectAbort = 0; std::vector<std::string> notes; u64 depth = 0; std::string out; std::vector<u64> trail; u64 userCounter[16] = {0}; u64 tlsDummy = 0, uninits = 0; std::vector<u64> tlsKeys;
};

struct PathEnd { int kind; std::string msg; };
enum { END_RETURN, END_ASSUME, END_ABORT, END_ABORT_OK, END_VIOLATION, END_UNSUPPORTED, END_EXIT, END_LIMIT };
static const char* endName[] = {"return", "assume-pruned", "abort", "expected-abort", "violation", "unsupported", "exit", "limit"};

struct Violation { std::string kind, msg, id; std::vector<std::string> stack; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> notes; };

struct Opts { u64 maxSteps = 400000000, maxPaths = 2000000; double maxTime = 1e9; u64 maxAlloc = 1 << 19; int verbose = 0; int maxViol = 20; u64 maxPathSteps = 80000000; u64 seed = 1; int tier = 0; bool constHash = false; std::vector<std::string> overrides; };
