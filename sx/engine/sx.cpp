#include <unordered_set>
// Path-forking symbolic executor over textual LLVM IR.
#include "ir.h"
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <deque>

enum { KD_HEAP, KD_STACK, KD_GLOBAL };
struct Obj {
  u64 base = 0, size = 0; u8 kind = KD_HEAP; bool ro = false;
  std::vector<u8> b, st;      // st: 0 uninitialised, 1 concrete, 2 symbolic
  std::vector<Expr *> ex;     // sized on first symbolic byte
  bool allInit = false;
};
typedef std::shared_ptr<Obj> ObjP;
struct Frame { Fn *f; int blk, ip, prev; u32 base; int retSlot; u32 retN; std::vector<u64> allocas; int cblk; };
struct StreamEnt { std::string name; std::vector<Val> bytes; };
struct State {
  std::vector<Frame> fr;
  std::vector<Val> regs;
  std::map<u64, ObjP> mem;
  std::unordered_map<u32, ObjP> gl;
  std::vector<Expr *> cs;
  std::vector<u8> asg;
  std::unordered_map<Expr *, u64> known; // expressions the path condition fixes to a constant
  u64 knownMask = 0;
  u64 nextAddr = HBASE;
  u64 steps = 0;
  u32 undefCtr = 0, forks = 0;
  std::map<std::string, int> occ;
  std::vector<StreamEnt> stream;
  std::vector<Expr *> laws; // assumed only where a violation or a sample needs it
  std::vector<std::pair<std::string, Val>> obs; // what the harness observed on this path
  Val clock; u32 clockRd = 0;
  ObjP last; u64 lastKey = ~0ull;
};
typedef std::unique_ptr<State> StateP;

static u64 maxSteps = 20000000, totalSteps = 0, maxPaths = ~0ull;
static double timeLimit = 0;
static std::chrono::steady_clock::time_point T0;
static u64 nPaths = 0, nAborted = 0, nForks = 0, maxForks = 0, nConc = 0, nChecks = 0, nChecksSym = 0, nModel = 0;
static std::map<u64, u64> reached;
static std::vector<u64> entryArgs;
static std::deque<StateP> work;
static bool traceCalls = false;
static std::map<std::string, u64> assumed;
static std::string inconclusive;
struct PathEnd {};
struct Retry {};

struct Violation { std::string kind, msg, stack, stream, choices; u64 count; };
static std::map<std::string, Violation> viols;
static u64 violBudget = 40;

static inline unsigned long symMaskOf(Expr *e) { u64 m = 0; for (u32 s : symsOf(e)) m |= 1ull << (s & 63); return m; }

// ---- expression helpers ----
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(Expr *e) {
  Val v;
  if (e->op == CONST && e->w <= 64) { v.c = e->k; return v; }
  v.e = e; return v;
}
static Expr *substRec(State &s, Expr *e, std::unordered_map<Expr *, Expr *> &memo) {
  if (e->op == CONST) return e;
  auto k = s.known.find(e);
  if (k != s.known.end()) return mkConst(k->second, e->w);
  if (e->op == SYM) return e;
  if (!(symMaskOf(e) & s.knownMask)) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Expr *a = e->a ? substRec(s, e->a, memo) : nullptr, *b = e->b ? substRec(s, e->b, memo) : nullptr, *c = e->c ? substRec(s, e->c, memo) : nullptr;
  Expr *r = (a == e->a && b == e->b && c == e->c) ? e : rebuild(e, a, b, c);
  if (r != e && r->op != CONST) { auto k2 = s.known.find(r); if (k2 != s.known.end()) r = mkConst(k2->second, r->w); }
  memo[e] = r;
  return r;
}
static Expr *subst(State &s, Expr *e) {
  if (s.known.empty() || e->op == CONST || !(symMaskOf(e) & s.knownMask)) return e;
  std::unordered_map<Expr *, Expr *> memo;
  return substRec(s, e, memo);
}
static std::vector<u32> symStamp; static u32 stampN = 0;
static void relevant(State &s, Expr *c, std::vector<Expr *> &out) {
  symStamp.resize(symNames.size() + 1);
  stampN++;
  for (u32 x : symsOf(c)) symStamp[x] = stampN;
  size_t n = s.cs.size();
  std::vector<char> in(n, 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = n; i-- > 0;) {
      if (in[i]) continue;
      const auto &sy = symsOf(s.cs[i]);
      bool hit = false;
      for (u32 x : sy) if (symStamp[x] == stampN) { hit = true; break; }
      if (!hit) continue;
      in[i] = 1; out.push_back(s.cs[i]);
      for (u32 x : sy) if (symStamp[x] != stampN) { symStamp[x] = stampN; ch = true; }
    }
  }
}
static void checkTime() {
  if (timeLimit > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > timeLimit) { inconclusive = "time limit"; throw std::string("time"); }
}
// is path /\ c satisfiable?
static bool feasible(State &s, Expr *c, std::vector<std::pair<u32, u8>> *m) {
  if (isC(c)) return cv(c) != 0;
  std::vector<Expr *> q;
  relevant(s, c, q);
  checkTime();
  if (q.size() > 2) {
    // the constraints about the symbols of c alone: unsatisfiable ones settle it, and so does a
    // model which together with the current values of the other symbols satisfies the rest
    const auto &cs = symsOf(c);
    std::vector<Expr *> q0;
    for (Expr *x : q) { const auto &sy = symsOf(x); if (sy.size() <= cs.size() && std::includes(cs.begin(), cs.end(), sy.begin(), sy.end())) q0.push_back(x); }
    if (q0.size() < q.size()) {
      q0.push_back(c);
      std::vector<std::pair<u32, u8>> m0;
      bool unk = false, sat = false;
      try { sat = solve(q0, &m0); } catch (SolverUnknown &) { unk = true; stats.unknown--; }
      if (!unk && !sat) return false;
      if (!unk) {
        std::vector<std::pair<u32, u8>> saved;
        s.asg.resize(symNames.size());
        for (auto &p : m0) { saved.push_back({p.first, s.asg[p.first]}); s.asg[p.first] = p.second; }
        bool ok = evalAll(q, s.asg);
        for (auto &p : saved) s.asg[p.first] = p.second;
        if (ok) { if (m) *m = m0; nModel++; return true; }
      }
    }
  }
  q.push_back(c);
  return solve(q, m);
}
static void noteKnown(State &s, Expr *e, u64 v) {
  if (s.known.emplace(e, v).second) s.knownMask |= symMaskOf(e);
}
static void addC(State &s, Expr *c) {
  if (isC(c)) return;
  if (c->op == AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
  if (c->op == EQ && isC(c->b) && c->a->w <= 64) noteKnown(s, c->a, (u64)cv(c->b));
  else if (c->op == XOR && isC(c->b)) {
    noteKnown(s, c->a, 0);
    if (c->a->op == OR) { addC(s, mkNot(c->a->a)); addC(s, mkNot(c->a->b)); return; }
  } else noteKnown(s, c, 1);
  s.cs.push_back(c);
}
static void setModel(State &s, const std::vector<std::pair<u32, u8>> &m) {
  for (auto &p : m) { if (p.first >= s.asg.size()) s.asg.resize(symNames.size()); s.asg[p.first] = p.second; }
}
static std::map<std::string, u64> forkAt; // where paths part (SX_FORKS=1)
static bool forkStat = getenv("SX_FORKS") != nullptr;
static void noteFork(State &s);
static StateP clone(State &s) { if (forkStat) noteFork(s); nForks++; s.forks++; maxForks = std::max<u64>(maxForks, s.forks); return std::make_unique<State>(s); }
static void noteFork(State &s) {
  std::string k;
  for (size_t i = s.fr.size(); i-- > 0 && i + 6 > s.fr.size();) k += s.fr[i].f->name.substr(0, 60) + ":" + std::to_string(s.fr[i].blk) + " < ";
  forkAt[k]++;
}

// ---- violations ----
static std::string stackOf(State &s) {
  std::string r;
  for (size_t i = s.fr.size(); i-- > 0;) { r += s.fr[i].f->name; r += "\n"; if (s.fr.size() - i > 12) break; }
  return r;
}
static std::string hexStream(State &s, const std::vector<u8> &asg, std::string *names) {
  static const char *h = "0123456789abcdef"; std::string r;
  for (auto &e : s.stream) {
    std::string one;
    for (auto &v : e.bytes) { u8 x = v.e ? (u8)evalExpr(v.e, asg) : (u8)v.c; one += h[x >> 4]; one += h[x & 15]; }
    r += one; if (names) *names += e.name + "=" + one + ";";
  }
  return r;
}
// Does the path (and c) have an assignment under which the laws hold? Leaves it in asg
static u64 nRefuted = 0;
static bool lawful(State &s, std::vector<u8> &asg, Expr *c, unsigned ms) {
  asg.resize(symNames.size());
  if (s.laws.empty() || evalAll(s.laws, asg)) return true;
  std::vector<Expr *> q = s.cs;
  for (Expr *x : s.laws) q.push_back(x);
  if (c) q.push_back(c);
  std::vector<std::pair<u32, u8>> m;
  unsigned saved = solverTimeoutMs;
  if (ms) solverTimeoutMs = ms;
  bool sat = false;
  try { sat = solve(q, &m); } catch (SolverUnknown &) { solverTimeoutMs = saved; if (ms) { stats.unknown--; return false; } throw; }
  solverTimeoutMs = saved;
  if (!sat) return false;
  for (auto &p : m) asg[p.first] = p.second;
  return true;
}
static void report(State &s, const std::string &kind, const std::string &msg, const std::vector<std::pair<u32, u8>> *m = nullptr, Expr *c = nullptr) {
  std::string stk = stackOf(s);
  std::string key = kind + "|" + msg + "|" + (kind == "check" ? "" : stk.substr(0, stk.find('\n', stk.find('\n') + 1)));
  auto it = viols.find(key);
  if (it != viols.end()) { it->second.count++; return; }
  std::vector<u8> asg = s.asg;
  if (m) for (auto &p : *m) { if (p.first >= asg.size()) asg.resize(symNames.size()); asg[p.first] = p.second; }
  if (!lawful(s, asg, c, 0)) { nRefuted++; return; }
  Violation v; v.kind = kind; v.msg = msg; v.stack = stk; v.count = 1; v.stream = hexStream(s, asg, &v.choices);
  viols[key] = v;
  // the verdict is settled; look for other violations for a while only
  double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
  if (timeLimit <= 0 || timeLimit > el + 30) timeLimit = el + 30;
  fprintf(stderr, "VIOL %s: %s\n", kind.c_str(), msg.c_str());
  if (traceCalls) fprintf(stderr, "%s", stk.c_str());
  if (viols.size() >= violBudget) throw std::string("violations");
}

// Concrete twins of some completed paths, to be executed natively
struct Sample { std::string stream, obs; };
static std::vector<Sample> samples;
static void sample(State &s) {
  u64 done = nPaths - nAborted;
  if (done > 3 && (done & (done - 1))) return;
  if (samples.size() >= 16) return;
  std::vector<u8> asg = s.asg;
  static int tries = 0;
  if (!s.laws.empty() && !evalAll(s.laws, asg) && (++tries > 2 || !lawful(s, asg, nullptr, 2000))) return;
  Sample x; x.stream = hexStream(s, asg, nullptr);
  for (auto &o : s.obs) {
    x.obs += o.first;
    u64 v = o.second.e ? (u64)evalExpr(o.second.e, asg) : o.second.c;
    x.obs += "=" + std::to_string(v) + ";";
  }
  samples.push_back(x);
}

// ---- memory ----
static std::vector<ObjP> ginit;
static ObjP mkObj(u64 base, u64 size, u8 kind) { auto o = std::make_shared<Obj>(); o->base = base; o->size = size; o->kind = kind; o->b.assign(size, 0); o->st.assign(size, 0); return o; }
static u64 allocObj(State &s, u64 size, u8 kind) {
  u64 a = s.nextAddr;
  s.nextAddr += ((size >> 20) + 2) << 20;
  s.mem.emplace(a, mkObj(a, size, kind));
  return a;
}
static Obj *findR(State &s, u64 addr) { // object containing (or ending at) addr
  if (addr >= HBASE && addr < FBASE) {
    if (s.last && addr - s.last->base <= s.last->size) return s.last.get();
    auto it = s.mem.upper_bound(addr);
    if (it == s.mem.begin()) return nullptr;
    --it;
    if (addr - it->first > it->second->size) return nullptr;
    return it->second.get();
  }
  if (addr >= GBASE && addr < HBASE) {
    u64 ix = (addr - GBASE) / GSTEP;
    if (ix >= M.gByIdx.size()) return nullptr;
    Global *g = M.gByIdx[ix];
    auto it = s.gl.find((u32)ix);
    Obj *o;
    if (it != s.gl.end()) o = it->second.get();
    else {
      if (ginit.size() < M.gByIdx.size()) ginit.resize(M.gByIdx.size());
      if (!ginit[ix]) {
        if (g->ext) return nullptr;
        auto p = mkObj(g->addr, g->size, KD_GLOBAL); M.initBytes(g, p->b); p->st.assign(g->size, 1); p->ro = g->ro; ginit[ix] = p;
      }
      o = ginit[ix].get();
    }
    if (addr - o->base > o->size) return nullptr;
    return o;
  }
  return nullptr;
}
static Obj *findW(State &s, u64 addr) {
  Obj *o = findR(s, addr);
  if (!o) return nullptr;
  if (o->kind == KD_GLOBAL) {
    u32 ix = (o->base - GBASE) / GSTEP;
    auto it = s.gl.find(ix);
    if (it == s.gl.end()) it = s.gl.emplace(ix, std::make_shared<Obj>(*o)).first;
    else if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return it->second.get();
  }
  auto it = s.mem.find(o->base);
  s.last.reset();
  if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
  return it->second.get();
}
static void memErr(State &s, const char *what, u64 addr, u64 n) {
  char t[160];
  Obj *o = findR(s, addr);
  if (o) snprintf(t, sizeof t, "%s of %lu bytes at offset %ld of a %lu-byte object", what, n, (long)(addr - o->base), o->size);
  else snprintf(t, sizeof t, "%s of %lu bytes outside any live object%s", what, n, addr < 4096 ? " (null)" : "");
  report(s, "memory", t);
  throw PathEnd();
}
static Obj *rd(State &s, u64 addr, u64 n) { Obj *o = findR(s, addr); if (!o || addr + n > o->base + o->size) memErr(s, "read", addr, n); return o; }
static Obj *wr(State &s, u64 addr, u64 n) {
  Obj *o = findR(s, addr);
  if (!o || addr + n > o->base + o->size) memErr(s, "write", addr, n);
  if (o->ro) memErr(s, "write to read-only memory", addr, n);
  return findW(s, addr);
}
static Expr *undefSym(State &s) {
  static std::vector<Expr *> pool;
  u32 i = s.undefCtr++;
  while (pool.size() <= i) pool.push_back(mkSym("undef#" + std::to_string(pool.size()), true));
  return pool[i];
}
static Val loadN(State &s, u64 addr, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj *o = rd(s, addr, n);
  u64 off = addr - o->base;
  const u8 *st = &o->st[off];
  bool conc = true, undef = false;
  for (unsigned i = 0; i < n; i++) { if (st[i] != 1) { conc = false; if (!st[i]) undef = true; } }
  if (n == 0) return Val();
  if (conc) {
    if (n <= 8) { u64 v = 0; memcpy(&v, &o->b[off], n); Val r; r.c = v & mask64(w); return r; }
    u128 v = 0; memcpy(&v, &o->b[off], n); Val r; r.e = mkConst(v, w); return r;
  }
  if (undef) {
    o = findW(s, addr);
    if (o->ex.empty()) o->ex.resize(o->size);
    for (unsigned i = 0; i < n; i++) if (!o->st[off + i]) { o->st[off + i] = 2; o->ex[off + i] = undefSym(s); }
  }
  Expr *e = nullptr;
  for (unsigned i = n; i-- > 0;) {
    Expr *x = o->st[off + i] == 2 ? o->ex[off + i] : mkConst(o->b[off + i], 8);
    e = e ? mkConcat(e, x) : x;
  }
  if (e->w > w) e = mkExtract(e, 0, w);
  if (!s.known.empty()) e = subst(s, e);
  return fromE(e);
}
static void storeN(State &s, u64 addr, unsigned w, const Val &v) {
  unsigned n = (w + 7) / 8;
  Obj *o = wr(s, addr, n);
  u64 off = addr - o->base;
  if (!v.e) { for (unsigned i = 0; i < n; i++) { o->b[off + i] = i < 8 ? (u8)(v.c >> (8 * i)) : 0; o->st[off + i] = 1; } return; }
  Expr *e = v.e;
  if (e->w != n * 8) e = mkZext(e, n * 8);
  if (o->ex.empty()) o->ex.resize(o->size);
  for (unsigned i = 0; i < n; i++) {
    Expr *x = mkExtract(e, 8 * i, 8);
    if (isC(x)) { o->b[off + i] = (u8)cv(x); o->st[off + i] = 1; }
    else { o->ex[off + i] = x; o->st[off + i] = 2; }
  }
}
static void putByte(Obj *o, u64 off, const Val &v) {
  if (!v.e) { o->b[off] = (u8)v.c; o->st[off] = 1; return; }
  if (isC(v.e)) { o->b[off] = (u8)cv(v.e); o->st[off] = 1; return; }
  if (o->ex.empty()) o->ex.resize(o->size);
  o->ex[off] = v.e; o->st[off] = 2;
}
static void copyMem(State &s, u64 d, u64 a, u64 n, bool allowOverlap) {
  if (!n) return;
  Obj *src = rd(s, a, n);
  if (!allowOverlap && d != a && d < a + n && a < d + n) memErr(s, "overlapping copy", d, n);
  ObjP keep; 
  if (src->kind == KD_GLOBAL) { auto it = s.gl.find((src->base - GBASE) / GSTEP); if (it != s.gl.end()) keep = it->second; }
  else keep = s.mem.find(src->base)->second;
  Obj *dst = wr(s, d, n);
  u64 so = a - src->base, to = d - dst->base;
  // findW may have replaced the object when source and destination are the same
  memmove(&dst->b[to], &src->b[so], n);
  bool anySym = false;
  if (!src->ex.empty()) for (u64 i = 0; i < n; i++) if (src->st[so + i] == 2) { anySym = true; break; }
  if (anySym) { if (dst->ex.empty()) dst->ex.resize(dst->size); memmove(&dst->ex[to], &src->ex[so], n * sizeof(Expr *)); }
  memmove(&dst->st[to], &src->st[so], n);
}
static Val byteAt(State &s, u64 a) { return loadN(s, a, 8); }

// ---- forking helpers (called before the instruction has any effect) ----
// Fix e to one value on this path; the other values are explored by a clone that re-executes the instruction.
static u64 concretize(State &s, const Val &v0, unsigned w) {
  if (!v0.e) return v0.c;
  Expr *e = subst(s, v0.e);
  if (isC(e)) return (u64)cv(e);
  u64 v = (u64)evalExpr(e, s.asg);
  Expr *eq = mkBin(EQ, e, mkConst(v, w));
  std::vector<std::pair<u32, u8>> m;
  if (feasible(s, mkNot(eq), &m)) {
    nConc++;
    StateP o = clone(s);
    addC(*o, mkNot(eq)); setModel(*o, m);
    work.push_back(std::move(o));
    addC(s, eq);
  }
  noteKnown(s, e, v);
  if (e != v0.e) noteKnown(s, v0.e, v);
  return v;
}
// Decide a condition on this path; the other outcome is explored by a re-executing clone.
static bool decide(State &s, Expr *c0) {
  Expr *c = subst(s, c0);
  if (isC(c)) return cv(c) != 0;
  bool r = evalExpr(c, s.asg) != 0;
  Expr *mine = r ? c : mkNot(c), *other = r ? mkNot(c) : c;
  std::vector<std::pair<u32, u8>> m;
  if (feasible(s, other, &m)) {
    StateP o = clone(s);
    addC(*o, other); setModel(*o, m);
    work.push_back(std::move(o));
    addC(s, mine);
  }
  noteKnown(s, c, r);
  return r;
}
// Concrete address for an access of n bytes. Out-of-bounds values are a violation.
static u64 address(State &s, const Val &p, u64 n, bool write) {
  if (!p.e) return p.c;
  Expr *e = subst(s, p.e);
  if (isC(e)) return (u64)cv(e);
  u64 a = (u64)evalExpr(e, s.asg);
  Obj *o = findR(s, a);
  if (!o || a + n > o->base + o->size) {
    // the model itself is out of bounds: report, then follow the in-bounds values if any object contains one
    Expr *eq = mkBin(EQ, e, mkConst(a, 64));
    char t[160]; snprintf(t, sizeof t, "%s of %lu bytes at a symbolic address outside any live object", write ? "write" : "read", n);
    report(s, "memory", t);
    std::vector<std::pair<u32, u8>> m;
    if (feasible(s, mkNot(eq), &m)) { addC(s, mkNot(eq)); setModel(s, m); throw Retry(); }
    throw PathEnd();
  }
  u64 lo = o->base, hi = o->base + o->size - n;
  Expr *oob = mkNot(mkBin(ULE, mkBin(SUB, e, mkConst(lo, 64)), mkConst(hi - lo, 64)));
  std::vector<std::pair<u32, u8>> m;
  if (feasible(s, oob, &m)) {
    // outside this object: another object, or an error; decided by a clone
    StateP c = clone(s);
    addC(*c, oob); setModel(*c, m);
    work.push_back(std::move(c));
    addC(s, mkNot(oob));
  }
  return concretize(s, p, 64);
}
// ---- frames ----
static inline Val get(State &s, const Opnd &o, u32 i = 0) {
  if (o.slot >= 0) return s.regs[s.fr.back().base + o.slot + i];
  return o.agg.empty() ? o.v : o.agg[i];
}
static inline void put(State &s, int slot, const Val &v, u32 i = 0) { s.regs[s.fr.back().base + slot + i] = v; }
static void enter(State &s, Fn *f, const std::vector<Val> &args, int retSlot, u32 retN, int cblk) {
  if (!f->parsed) { if (!f->body) die("call of undefined function %s", f->name.c_str()); M.parseBody(f); }
  f->execs++;
  if (s.fr.size() > 400) { report(s, "recursion", "call depth above 400"); throw PathEnd(); }
  Frame fr; fr.f = f; fr.blk = 0; fr.ip = f->blocks[0].first; fr.prev = -1; fr.base = s.regs.size(); fr.retSlot = retSlot; fr.retN = retN; fr.cblk = cblk;
  s.regs.resize(fr.base + f->nslots);
  size_t k = 0;
  for (size_t i = 0; i < f->argSlot.size(); i++) {
    u32 n = f->argTy[i]->scalar() ? 1 : f->argTy[i]->lv().size();
    for (u32 j = 0; j < n; j++) s.regs[fr.base + f->argSlot[i] + j] = args.at(k++);
  }
  s.fr.push_back(std::move(fr));
}
static void jump(State &s, int blk) {
  Frame &f = s.fr.back();
  int prev = f.blk;
  f.prev = prev; f.blk = blk; f.ip = f.f->blocks[blk].first;
  // phis
  const Inst *in = &f.f->code[f.ip];
  if (in->op != O_PHI) return;
  static std::vector<Val> tmp; tmp.clear();
  int n = 0;
  for (; in[n].op == O_PHI; n++) {
    const Inst &p = in[n];
    size_t j = 0; while (j < p.tgt.size() && p.tgt[j] != prev) j++;
    if (j == p.tgt.size()) die("phi without edge in %s", f.f->name.c_str());
    for (u32 i = 0; i < p.ndst; i++) tmp.push_back(get(s, p.a[j], i));
  }
  size_t t = 0;
  for (int i = 0; i < n; i++) for (u32 j = 0; j < in[i].ndst; j++) put(s, in[i].dst, tmp[t++], j);
  f.ip += n;
}
static bool doReturn(State &s, const std::vector<Val> &rv) { // true: path finished
  Frame &f = s.fr.back();
  for (u64 a : f.allocas) s.mem.erase(a);
  s.last.reset();
  int slot = f.retSlot; u32 n = f.retN; int cblk = f.cblk;
  s.regs.resize(f.base);
  s.fr.pop_back();
  if (s.fr.empty()) return true;
  if (slot >= 0) for (u32 i = 0; i < n; i++) put(s, slot, rv[i], i);
  if (cblk >= 0) jump(s, cblk); else s.fr.back().ip++;
  return false;
}

// ---- arithmetic ----
static Val binop(BinK k, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e && w <= 64) {
    Val r; u64 x = a.c, y = b.c, m = mask64(w);
    switch (k) {
    case B_ADD: r.c = (x + y) & m; return r;
    case B_SUB: r.c = (x - y) & m; return r;
    case B_MUL: r.c = (x * y) & m; return r;
    case B_AND: r.c = x & y; return r;
    case B_OR: r.c = x | y; return r;
    case B_XOR: r.c = x ^ y; return r;
    case B_SHL: r.c = y >= w ? 0 : (x << y) & m; return r;
    case B_LSHR: r.c = y >= w ? 0 : x >> y; return r;
    case B_UDIV: if (y) { r.c = x / y; return r; } break;
    case B_UREM: if (y) { r.c = x % y; return r; } break;
    default: break;
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  static const Op ops[] = {ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, FADD, FSUB, FMUL, FDIV, FREM};
  if (k >= B_FADD) return fromE(mkFp(ops[k], w, x, y));
  return fromE(mkBin(ops[k], x, y));
}
static Val icmp(CmpK k, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e) {
    Val r; u64 x = a.c, y = b.c; i64 sx = sx64(x, w), sy = sx64(y, w);
    switch (k) {
    case C_EQ: r.c = x == y; break; case C_NE: r.c = x != y; break;
    case C_ULT: r.c = x < y; break; case C_ULE: r.c = x <= y; break; case C_UGT: r.c = x > y; break; case C_UGE: r.c = x >= y; break;
    case C_SLT: r.c = sx < sy; break; case C_SLE: r.c = sx <= sy; break; case C_SGT: r.c = sx > sy; break; case C_SGE: r.c = sx >= sy; break;
    default: die("icmp");
    }
    return r;
  }
  Expr *x = toE(a, w), *y = toE(b, w), *e;
  switch (k) {
  case C_EQ: e = mkBin(EQ, x, y); break; case C_NE: e = mkNot(mkBin(EQ, x, y)); break;
  case C_ULT: e = mkBin(ULT, x, y); break; case C_ULE: e = mkBin(ULE, x, y); break;
  case C_UGT: e = mkBin(ULT, y, x); break; case C_UGE: e = mkBin(ULE, y, x); break;
  case C_SLT: e = mkBin(SLT, x, y); break; case C_SLE: e = mkBin(SLE, x, y); break;
  case C_SGT: e = mkBin(SLT, y, x); break; case C_SGE: e = mkBin(SLE, y, x); break;
  default: die("icmp");
  }
  return fromE(e);
}
static Val fcmp(CmpK k, unsigned w, const Val &a, const Val &b) {
  Expr *x = toE(a, w), *y = toE(b, w);
  Expr *un = mkFp(FUNO, 1, x, y), *r = nullptr;
  auto O = [&](Op o, Expr *p, Expr *q) { return mkFp(o, 1, p, q); };
  switch (k) {
  case F_OEQ: case F_UEQ: r = O(FOEQ, x, y); break;
  case F_OLT: case F_ULT: r = O(FOLT, x, y); break;
  case F_OLE: case F_ULE: r = O(FOLE, x, y); break;
  case F_OGT: case F_UGT: r = O(FOLT, y, x); break;
  case F_OGE: case F_UGE: r = O(FOLE, y, x); break;
  case F_ONE: r = mkBin(AND, mkNot(O(FOEQ, x, y)), mkNot(un)); break;
  case F_UNE: r = mkNot(O(FOEQ, x, y)); break;
  case F_ORD: r = mkNot(un); break;
  case F_UNO: r = un; break;
  case F_TRUE: r = mkConst(1, 1); break;
  case F_FALSE: r = mkConst(0, 1); break;
  default: die("fcmp");
  }
  if (k == F_UEQ || k == F_ULT || k == F_ULE || k == F_UGT || k == F_UGE) r = mkBin(OR, r, un);
  return fromE(r);
}
static Val castv(CastK k, unsigned wa, unsigned wr, const Val &a) {
  if (!a.e && wa <= 64 && wr <= 64) {
    Val r;
    switch (k) {
    case K_ZEXT: case K_PTRTOINT: case K_INTTOPTR: case K_TRUNC: r.c = a.c & mask64(wr); return r;
    case K_SEXT: r.c = (u64)sx64(a.c, wa) & mask64(wr); return r;
    case K_BITCAST: return a;
    default: break;
    }
  }
  Expr *x = toE(a, wa);
  switch (k) {
  case K_ZEXT: return fromE(mkZext(x, wr));
  case K_SEXT: return fromE(mkSext(x, wr));
  case K_TRUNC: return fromE(mkExtract(x, 0, wr));
  case K_PTRTOINT: case K_INTTOPTR: return fromE(wr > wa ? mkZext(x, wr) : wr < wa ? mkExtract(x, 0, wr) : x);
  case K_BITCAST: return a;
  case K_UITOFP: return fromE(mkFp(UITOFP, wr, x));
  case K_SITOFP: return fromE(mkFp(SITOFP, wr, x));
  case K_FPTOUI: return fromE(mkFp(FPTOUI, wr, x));
  case K_FPTOSI: return fromE(mkFp(FPTOSI, wr, x));
  case K_FPEXT: return fromE(mkFp(FPEXT, wr, x));
  case K_FPTRUNC: return fromE(mkFp(FPTRUNC, wr, x));
  }
  die("cast");
}
static Val ite(const Val &c, const Val &a, const Val &b, unsigned w) {
  if (!c.e) return c.c ? a : b;
  return fromE(mkIte(c.e, toE(a, w), toE(b, w)));
}
static Expr *memEq(State &s, u64 a, u64 b, u64 n) {
  Expr *r = mkConst(1, 1);
  std::unordered_set<Expr *> seen; // long repetitions compare the same octets again and again
  if (n) { rd(s, a, n); rd(s, b, n); }
  for (u64 i = 0; i < n; i++) {
    Val x = byteAt(s, a + i), y = byteAt(s, b + i);
    if (!x.e && !y.e) { if (x.c != y.c) return mkConst(0, 1); continue; }
    Expr *q = mkBin(EQ, toE(x, 8), toE(y, 8));
    if (isC(q)) { if (!cv(q)) return q; continue; }
    if (n > 64 && !seen.insert(q).second) continue;
    r = mkBin(AND, r, q);
  }
  return r;
}
static std::string strAt(State &s, u64 p, u64 n) {
  std::string r;
  for (u64 i = 0; i < n && i < 4096; i++) { Val v = byteAt(s, p + i); r += v.e ? '?' : (char)v.c; }
  return r;
}
// Entry of a constant table at the offset whose low `bits` bits are symbolic (the higher ones are `hi`);
// null: no such offset
static Expr *mux(State &s, Obj *o, Expr *d, unsigned bits, u64 hi, u64 nb, unsigned w) {
  if (hi + nb > o->size) return nullptr;
  if (!bits) return toE(loadN(s, o->base + hi, w), w);
  Expr *c = mkExtract(d, bits - 1, 1);
  if (isC(c)) return mux(s, o, d, bits - 1, hi | ((u64)cv(c) << (bits - 1)), nb, w);
  Expr *x = mux(s, o, d, bits - 1, hi | (1ull << (bits - 1)), nb, w), *y = mux(s, o, d, bits - 1, hi, nb, w);
  if (!x) return y;
  if (!y) return x;
  return mkIte(c, x, y);
}
#include "calls.inc"

// Execute until the path ends or is abandoned.
static void runState(StateP sp) {
  State &s = *sp;
  try {
    for (;;) {
      if (++s.steps > maxSteps) { report(s, "steps", "path exceeds " + std::to_string(maxSteps) + " instructions"); throw PathEnd(); }
      if ((++totalSteps & 0xfffff) == 0) checkTime();
      Frame &f = s.fr.back();
      const Inst &in = f.f->code[f.ip];
      switch (in.op) {
      case O_NOP: f.ip++; break;
      case O_BIN: {
        if (in.ndst == 1) { put(s, in.dst, binop((BinK)in.sub, in.ty->w, get(s, in.a[0]), get(s, in.a[1]))); }
        else for (u32 i = 0; i < in.ndst; i++) put(s, in.dst, binop((BinK)in.sub, in.ty->el->w, get(s, in.a[0], i), get(s, in.a[1], i)), i);
        f.ip++; break;
      }
      case O_ICMP:
        for (u32 i = 0; i < in.ndst; i++) put(s, in.dst, icmp((CmpK)in.sub, in.a[0].ty->scalar() ? in.a[0].w : in.a[0].ty->el->w, get(s, in.a[0], i), get(s, in.a[1], i)), i);
        f.ip++; break;
      case O_FCMP: put(s, in.dst, fcmp((CmpK)in.sub, in.a[0].w, get(s, in.a[0]), get(s, in.a[1]))); f.ip++; break;
      case O_CAST: {
        Ty *ta = in.a[0].ty;
        if (ta->scalar() && in.ty->scalar()) put(s, in.dst, castv((CastK)in.sub, ta->w, in.ty->w, get(s, in.a[0])));
        else if (in.sub == K_BITCAST) {
          // concatenate the source leaves, split into destination leaves
          Expr *e = nullptr; u32 na = in.a[0].n; unsigned wl = ta->scalar() ? ta->w : ta->el->w;
          for (u32 i = na; i-- > 0;) { Expr *x = toE(get(s, in.a[0], i), wl); e = e ? mkConcat(e, x) : x; }
          unsigned wd = in.ty->scalar() ? in.ty->w : in.ty->el->w;
          for (u32 i = 0; i < in.ndst; i++) put(s, in.dst, fromE(mkExtract(e, i * wd, wd)), i);
        } else for (u32 i = 0; i < in.ndst; i++) put(s, in.dst, castv((CastK)in.sub, ta->el->w, in.ty->el->w, get(s, in.a[0], i)), i);
        f.ip++; break;
      }
      case O_SELECT: {
        Val c = get(s, in.a[0]);
        if (in.a[0].n == 1) {
          if (c.e) { Expr *x = subst(s, c.e); c = fromE(x); }
          if (c.e && in.ty->k == Ty::PTR) { bool d = decide(s, c.e); c.e = nullptr; c.c = d; }
          if (!c.e) { const Opnd &o = c.c ? in.a[1] : in.a[2]; for (u32 i = 0; i < in.ndst; i++) put(s, in.dst, get(s, o, i), i); }
          else { const auto &lv = in.ty->lv(); for (u32 i = 0; i < in.ndst; i++) put(s, in.dst, ite(c, get(s, in.a[1], i), get(s, in.a[2], i), lv[i].w), i); }
        } else for (u32 i = 0; i < in.ndst; i++) put(s, in.dst, ite(get(s, in.a[0], i), get(s, in.a[1], i), get(s, in.a[2], i), in.ty->el->w), i);
        f.ip++; break;
      }
      case O_GEP: {
        Val b = get(s, in.a[0]);
        u64 add = in.off; Expr *e = b.e;
        if (!e) add += b.c;
        for (size_t i = 0; i < in.idx.size(); i++) {
          Val x = get(s, in.a[i + 1]);
          if (!x.e) add += (u64)sx64(x.c, in.a[i + 1].w) * in.idx[i];
          else { Expr *t = mkBin(MUL, mkSext(x.e, 64), mkConst(in.idx[i], 64)); e = e ? mkBin(ADD, e, t) : t; }
        }
        if (!e) { Val r; r.c = add; put(s, in.dst, r); }
        else put(s, in.dst, fromE(mkBin(ADD, e, mkConst(add, 64))));
        f.ip++; break;
      }
      case O_LOAD: {
        Val p = get(s, in.a[0]);
        u64 n = in.ty->size;
        if (p.e && in.ty->scalar()) {
          // constant tables: an expression instead of one path per index
          Expr *e = subst(s, p.e);
          if (!isC(e)) {
            u64 a0 = (u64)evalExpr(e, s.asg); Obj *o = findR(s, a0);
            if (o && o->ro && o->size <= 4096 && n <= 8) {
              u64 nb = (in.ty->w + 7) / 8; 
              Expr *oob = mkNot(mkBin(ULE, mkBin(SUB, e, mkConst(o->base, 64)), mkConst(o->size - nb, 64)));
              if (a0 + nb <= o->base + o->size && !feasible(s, oob, nullptr)) {
                Expr *d = mkBin(SUB, e, mkConst(o->base, 64));
                unsigned bits = 0; while ((1ull << bits) < o->size) bits++;
                Expr *r = mux(s, o, d, bits, 0, nb, in.ty->w);
                put(s, in.dst, fromE(r)); f.ip++; break;
              }
            }
          }
        }
        u64 a = address(s, p, n, false);
        if (in.ty->scalar()) put(s, in.dst, loadN(s, a, in.ty->w));
        else { const auto &lv = in.ty->lv(); for (u32 i = 0; i < lv.size(); i++) put(s, in.dst, loadN(s, a + lv[i].off, lv[i].w), i); }
        s.fr.back().ip++; break;
      }
      case O_STORE: {
        Ty *t = in.a[0].ty;
        u64 a = address(s, get(s, in.a[1]), t->size, true);
        if (t->scalar()) storeN(s, a, t->w, get(s, in.a[0]));
        else { const auto &lv = t->lv(); for (u32 i = 0; i < lv.size(); i++) storeN(s, a + lv[i].off, lv[i].w, get(s, in.a[0], i)); }
        f.ip++; break;
      }
      case O_ALLOCA: { u64 a = allocObj(s, in.off, KD_STACK); f.allocas.push_back(a); Val v; v.c = a; put(s, in.dst, v); f.ip++; break; }
      case O_BR: jump(s, in.tgt[0]); break;
      case O_CBR: {
        Val c = get(s, in.a[0]);
        if (c.e) { c = fromE(subst(s, c.e)); }
        if (!c.e) { jump(s, in.tgt[c.c ? 0 : 1]); break; }
        if (c.e->undef) { report(s, "uninit", "branch on uninitialised memory"); throw PathEnd(); }
        bool r = evalExpr(c.e, s.asg) != 0;
        Expr *mine = r ? c.e : mkNot(c.e), *other = r ? mkNot(c.e) : c.e;
        std::vector<std::pair<u32, u8>> m;
        if (feasible(s, other, &m)) {
          StateP o = clone(s); addC(*o, other); setModel(*o, m); jump(*o, in.tgt[r ? 1 : 0]); work.push_back(std::move(o));
          addC(s, mine);
        } else noteKnown(s, c.e, r);
        jump(s, in.tgt[r ? 0 : 1]);
        break;
      }
      case O_SWITCH: {
        Val c = get(s, in.a[0]);
        if (c.e) c = fromE(subst(s, c.e));
        unsigned w = in.a[0].w;
        if (!c.e) {
          int t = in.tgt[0]; for (size_t i = 0; i < in.idx.size(); i++) if (in.idx[i] == c.c) { t = in.tgt[i + 1]; break; }
          jump(s, t); break;
        }
        if (c.e->undef) { report(s, "uninit", "switch on uninitialised memory"); throw PathEnd(); }
        // one successor per distinct target
        std::map<int, Expr *> cond; std::vector<int> order; Expr *any = mkConst(0, 1);
        for (size_t i = 0; i < in.idx.size(); i++) {
          Expr *q = mkBin(EQ, c.e, mkConst(in.idx[i], w));
          any = mkBin(OR, any, q);
          if (in.tgt[i + 1] == in.tgt[0]) continue;
          auto it = cond.find(in.tgt[i + 1]);
          if (it == cond.end()) { cond[in.tgt[i + 1]] = q; order.push_back(in.tgt[i + 1]); } else it->second = mkBin(OR, it->second, q);
        }
        Expr *none = mkConst(1, 1);
        for (auto &x : cond) none = mkBin(AND, none, mkNot(x.second));
        u64 v = (u64)evalExpr(c.e, s.asg);
        int mineT = in.tgt[0]; for (size_t i = 0; i < in.idx.size(); i++) if (in.idx[i] == v) { mineT = in.tgt[i + 1]; break; }
        Expr *mineC = mineT == in.tgt[0] ? none : cond[mineT];
        bool forked = false;
        order.push_back(in.tgt[0]);
        for (int t : order) {
          if (t == mineT) continue;
          Expr *q = t == in.tgt[0] ? none : cond[t];
          std::vector<std::pair<u32, u8>> m;
          if (!feasible(s, q, &m)) continue;
          StateP o = clone(s); addC(*o, q); setModel(*o, m); jump(*o, t); work.push_back(std::move(o)); forked = true;
        }
        if (forked) addC(s, mineC);
        jump(s, mineT);
        break;
      }
      case O_RET: {
        std::vector<Val> rv;
        if (in.ty->k != Ty::VOID) for (u32 i = 0; i < in.a[0].n; i++) rv.push_back(get(s, in.a[0], i));
        if (doReturn(s, rv)) { nPaths++; sample(s); return; }
        break;
      }
      case O_UNREACHABLE: report(s, "unreachable", "unreachable code executed"); throw PathEnd();
      case O_CALL: doCall(s, in); break;
      case O_EXTRACTV: for (u32 i = 0; i < in.ndst; i++) put(s, in.dst, get(s, in.a[0], in.idx[0] + i), i); f.ip++; break;
      case O_INSERTV: {
        u32 n = in.a[1].n, at = in.idx[0];
        for (u32 i = 0; i < in.ndst; i++) if (i < at || i >= at + n) put(s, in.dst, get(s, in.a[0], i), i);
        for (u32 i = 0; i < n; i++) put(s, in.dst, get(s, in.a[1], i), at + i);
        f.ip++; break;
      }
      case O_RMW: {
        unsigned w = in.ty->w; u64 a = address(s, get(s, in.a[0]), (w + 7) / 8, true);
        Val o = loadN(s, a, w), v = get(s, in.a[1]), r;
        switch (in.sub) {
        case 0: r = v; break; case 1: r = binop(B_ADD, w, o, v); break; case 2: r = binop(B_SUB, w, o, v); break;
        case 3: r = binop(B_AND, w, o, v); break; case 4: r = binop(B_OR, w, o, v); break; case 5: r = binop(B_XOR, w, o, v); break;
        case 8: r = ite(icmp(C_UGT, w, o, v), o, v, w); break; case 9: r = ite(icmp(C_ULT, w, o, v), o, v, w); break;
        default: die("atomicrmw %d", in.sub);
        }
        storeN(s, a, w, r); put(s, in.dst, o); s.fr.back().ip++; break;
      }
      case O_CMPXCHG: {
        unsigned w = in.a[1].w; u64 a = address(s, get(s, in.a[0]), (w + 7) / 8, true);
        Val o = loadN(s, a, w); Val eq = icmp(C_EQ, w, o, get(s, in.a[1]));
        if (eq.e) { bool d = decide(s, eq.e); eq = Val(); eq.c = d; }
        if (eq.c) storeN(s, a, w, get(s, in.a[2]));
        put(s, in.dst, o, 0); put(s, in.dst, eq, 1); s.fr.back().ip++; break;
      }
      case O_FREEZE: for (u32 i = 0; i < in.ndst; i++) put(s, in.dst, get(s, in.a[0], i), i); f.ip++; break;
      case O_FNEG: { unsigned w = in.ty->w; Val sg; sg.c = 1ull << (w - 1); put(s, in.dst, binop(B_XOR, w, get(s, in.a[0]), sg)); f.ip++; break; }
      case O_SHUFFLE: {
        u32 na = in.a[0].n;
        for (u32 i = 0; i < in.ndst; i++) { u64 ix = get(s, in.a[2], i).c; put(s, in.dst, ix < na ? get(s, in.a[0], ix) : get(s, in.a[1], ix - na), i); }
        f.ip++; break;
      }
      case O_INSEL: { u64 ix = concretize(s, get(s, in.a[2]), in.a[2].w); for (u32 i = 0; i < in.ndst; i++) put(s, in.dst, i == ix ? get(s, in.a[1]) : get(s, in.a[0], i), i); s.fr.back().ip++; break; }
      case O_EXTEL: { u64 ix = concretize(s, get(s, in.a[1]), in.a[1].w); put(s, in.dst, get(s, in.a[0], ix)); s.fr.back().ip++; break; }
      case O_PHI: die("stray phi");
      case O_LANDINGPAD: case O_RESUME: report(s, "unwind", "unwinding"); throw PathEnd();
      }
    }
  } catch (Retry &) {
    work.push_back(std::move(sp));
  } catch (PathEnd &) {
    nPaths++; nAborted++;
  }
}
static std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); r += t; } else r += c; }
  return r;
}
int main(int argc, char **argv) {
  std::string ll, entry, out;
  bool cov = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--ll") ll = nx(); else if (a == "--entry") entry = nx(); else if (a == "--out") out = nx();
    else if (a == "--arg") entryArgs.push_back(strtoull(argv[++i], 0, 0));
    else if (a == "--max-steps") maxSteps = strtoull(argv[++i], 0, 0);
    else if (a == "--max-paths") maxPaths = strtoull(argv[++i], 0, 0);
    else if (a == "--time") timeLimit = atof(argv[++i]);
    else if (a == "--solver-ms") solverTimeoutMs = atoi(argv[++i]);
    else if (a == "--dump") smtDumpDir = nx();
    else if (a == "--max-viol") violBudget = atoi(argv[++i]);
    else if (a == "--trace") traceCalls = true;
    else if (a == "--cov") cov = true;
    else die("option %s", a.c_str());
  }
  (void)cov;
  T0 = std::chrono::steady_clock::now();
  M.load(ll);
  auto it = M.fns.find(entry);
  if (it == M.fns.end() || !it->second->body) die("no entry %s", entry.c_str());
  StateP s = std::make_unique<State>();
  enter(*s, it->second, {}, -1, 0, -1);
  work.push_back(std::move(s));
  try {
    while (!work.empty()) {
      StateP x = std::move(work.back()); work.pop_back();
      runState(std::move(x));
      if (nPaths >= maxPaths && !work.empty()) { inconclusive = "path limit"; break; }
    }
  } catch (SolverUnknown &) { inconclusive = "solver returned unknown"; }
  catch (std::string &m) { if (m != "violations") inconclusive = inconclusive.empty() ? m : inconclusive; else inconclusive = "stopped after " + std::to_string(violBudget) + " distinct violations"; }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
  if (forkStat) {
    std::vector<std::pair<u64, std::string>> v;
    for (auto &x : forkAt) v.push_back({x.second, x.first});
    std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "FORKS %lu %s\n", v[i].first, v[i].second.c_str());
  }
  std::string j = "{";
  char t[600];
  snprintf(t, sizeof t, "\"paths\":%lu,\"ended_early\":%lu,\"pending\":%zu,\"instructions\":%lu,\"forks\":%lu,\"max_forks_on_path\":%lu,\"value_forks\":%lu,\"checks\":%lu,\"checks_symbolic\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"symbols\":%zu,",
           nPaths, nAborted, work.size(), totalSteps, nForks, maxForks, nConc, nChecks, nChecksSym, stats.queries, stats.sat, stats.unsat, stats.unknown, stats.cacheHits, stats.seconds, stats.maxq, wall, symNames.size());
  j += t;
  j += "\"entry\":\"" + entry + "\",\"args\":[";
  for (size_t i = 0; i < entryArgs.size(); i++) j += (i ? "," : "") + std::to_string(entryArgs[i]);
  j += "],\"inconclusive\":\"" + jesc(inconclusive) + "\",\"reached\":{";
  bool first = true;
  for (auto &r : reached) { j += (first ? "" : ",") + ("\"" + std::to_string(r.first) + "\":") + std::to_string(r.second); first = false; }
  j += "},\"functions\":[";
  first = true;
  for (Fn *f : M.fnByIdx) if (f->execs && f->body) { j += (first ? "\"" : ",\"") + jesc(f->name) + "\""; first = false; }
  j += "],\"violations\":[";
  first = true;
  for (auto &v : viols) {
    j += first ? "" : ","; first = false;
    j += "{\"kind\":\"" + jesc(v.second.kind) + "\",\"msg\":\"" + jesc(v.second.msg) + "\",\"count\":" + std::to_string(v.second.count) + ",\"stream\":\"" + v.second.stream + "\",\"inputs\":\"" + jesc(v.second.choices) + "\",\"stack\":\"" + jesc(v.second.stack) + "\"}";
  }
  j += "],\"samples\":[";
  first = true;
  for (auto &x : samples) { j += first ? "" : ","; first = false; j += "{\"stream\":\"" + x.stream + "\",\"obs\":\"" + jesc(x.obs) + "\"}"; }
  j += "]}\n";
  if (out.empty()) fputs(j.c_str(), stdout); else { FILE *f = fopen(out.c_str(), "w"); if (!f) die("cannot write %s", out.c_str()); fputs(j.c_str(), f); fclose(f); }
  fflush(stdout);
  _exit(!viols.empty() ? 1 : !inconclusive.empty() ? 2 : 0);
}
