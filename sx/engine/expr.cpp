#include "expr.h"
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
std::vector<std::string> symNames;
std::vector<bool> symUndef;
SolverStats stats;
unsigned solverTimeoutMs = 60000;
std::string smtDumpDir;
static std::unordered_map<Key, Expr *, KeyH> table;
static u32 nextId = 1;

Expr *mk(Op op, unsigned w, Expr *a, Expr *b, Expr *c, u64 k, u64 k2) {
  Key key{op, (uint16_t)w, a, b, c, k, k2};
  auto it = table.find(key);
  if (it != table.end()) return it->second;
  Expr *e = new Expr();
  e->op = op; e->w = w; e->id = nextId++; e->a = a; e->b = b; e->c = c; e->k = k; e->k2 = k2;
  e->undef = (a && a->undef) || (b && b->undef) || (c && c->undef);
  table.emplace(key, e);
  return e;
}
static Expr *small[9][256];
Expr *mkConst(u128 v, unsigned w) {
  v &= maskw(w);
  if (v < 256 && (w == 1 || w == 8)) {
    Expr *&s = small[w == 8 ? 8 : 1][(int)v];
    if (!s) s = mk(CONST, w, 0, 0, 0, (u64)v, 0);
    return s;
  }
  return mk(CONST, w, 0, 0, 0, (u64)v, (u64)(v >> 64));
}
Expr *mkSym(const std::string &name, bool undef) {
  u32 id = symNames.size();
  symNames.push_back(name);
  symUndef.push_back(undef);
  Expr *e = mk(SYM, 8, 0, 0, 0, id);
  e->undef = undef;
  return e;
}
static double d64(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static u128 b64(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static double dw(u128 v, unsigned w) { if (w == 32) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; } return d64(v); }
static u128 bw(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } return b64(d); }

u128 evalOp(Op op, unsigned w, unsigned aw, u128 a, u128 b) {
  u128 m = maskw(aw);
  switch (op) {
  case ADD: return (a + b) & m;
  case SUB: return (a - b) & m;
  case MUL: return (a * b) & m;
  case UDIV: return b ? (a / b) & m : m;
  case UREM: return b ? (a % b) & m : a;
  case SDIV: { i128 x = sx128(a, aw), y = sx128(b, aw); if (!y) return x >= 0 ? m : 1; if (y == -1) return ((u128)0 - a) & m; return (u128)(x / y) & m; }
  case SREM: { i128 x = sx128(a, aw), y = sx128(b, aw); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL: return b >= aw ? 0 : (a << (unsigned)b) & m;
  case LSHR: return b >= aw ? 0 : (a >> (unsigned)b);
  case ASHR: { i128 x = sx128(a, aw); return (u128)(b >= aw ? (x < 0 ? -1 : 0) : (x >> (unsigned)b)) & m; }
  case EQ: return a == b;
  case ULT: return a < b;
  case ULE: return a <= b;
  case SLT: return sx128(a, aw) < sx128(b, aw);
  case SLE: return sx128(a, aw) <= sx128(b, aw);
  case ZEXT: return a;
  case SEXT: return (u128)sx128(a, aw) & maskw(w);
  case FADD: return bw(dw(a, aw) + dw(b, aw), w);
  case FSUB: return bw(dw(a, aw) - dw(b, aw), w);
  case FMUL: return bw(dw(a, aw) * dw(b, aw), w);
  case FDIV: return bw(dw(a, aw) / dw(b, aw), w);
  case FREM: return bw(fmod(dw(a, aw), dw(b, aw)), w);
  case FOEQ: return dw(a, aw) == dw(b, aw);
  case FOLT: return dw(a, aw) < dw(b, aw);
  case FOLE: return dw(a, aw) <= dw(b, aw);
  case FUNO: return std::isnan(dw(a, aw)) || std::isnan(dw(b, aw));
  case SITOFP: if (w == 32) { float f = (float)(i64)sx128(a, aw); return bw(f, 32); } return aw > 64 ? bw((double)sx128(a, aw), w) : bw((double)(i64)sx128(a, aw), w);
  case UITOFP: if (w == 32) { float f = (float)(u64)a; return bw(f, 32); } return aw > 64 ? bw((double)a, w) : bw((double)(u64)a, w);
  case FPTOSI: return (u128)(i128)dw(a, aw) & maskw(w);
  case FPTOUI: return (u128)dw(a, aw) & maskw(w);
  case FPEXT: return bw(dw(a, 32), 64);
  case FPTRUNC: return bw(dw(a, 64), 32);
  default: abort();
  }
}
// results which are zero or positive normalized numbers, range of their biased exponents
static std::unordered_map<Expr *, std::pair<int, int>> fpExact;
Expr *mkFp(Op op, unsigned w, Expr *a, Expr *b) {
  if (isC(a) && (!b || isC(b))) return mkConst(evalOp(op, w, a->w, cv(a), b ? cv(b) : 0), w);
  // numbers which are not negative
  if (op == SITOFP) { range(a); if (a->hi < ((u128)1 << (a->w - 1))) op = UITOFP; }
  // Exact conversions and scalings by powers of two are integer operations on the representation
  if (op == UITOFP && w == 64) {
    while (a->op == ZEXT) a = a->a;
    range(a);
    if (a->hi < ((u128)1 << 53)) {
      unsigned n = 0;
      while (a->hi >> n) n++; // n bits
      Expr *x = a->w < 64 ? mkZext(a, 64) : mkExtract(a, 0, 64), *r = mkConst(0, 64);
      for (unsigned p = 0; p < n; p++) {
        // leading one at p
        Expr *v = mkBin(ADD, mkBin(SHL, x, mkConst(52 - p, 64)), mkConst((u128)(1022 + p) << 52, 64));
        r = p ? mkIte(mkBin(ULT, x, mkConst((u128)1 << p, 64)), r, v) : mkIte(mkBin(EQ, x, mkConst(0, 64)), r, v);
      }
      fpExact[r] = {1023, 1023 + (int)n - 1};
      return r;
    }
  }
  if (op == FMUL && w == 64) {
    if (isC(a)) std::swap(a, b);
    auto it = fpExact.find(a);
    if (isC(b) && it != fpExact.end()) {
      u64 k = (u64)cv(b);
      int e = (int)(k >> 52) - 1023;
      if (!(k >> 63) && !(k & ((1ull << 52) - 1)) && e > -1023 && e < 1024) {
        int lo = it->second.first + e, hi = it->second.second + e;
        if (lo >= 1 && hi <= 2046) {
          Expr *r = mkIte(mkBin(EQ, a, mkConst(0, 64)), a, mkBin(ADD, a, mkConst((u128)(u64)((i64)e << 52), 64)));
          fpExact[r] = {lo, hi};
          return r;
        }
      }
    }
  }
  return mk(op, w, a, b);
}
Expr *mkNot(Expr *a) { return mkBin(XOR, a, mkConst(1, 1)); }
static bool commut(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ; }
// number of low bits that are surely zero above position: upper bound on the value's width
static unsigned sigBits(Expr *e) {
  if (isC(e)) { u128 v = cv(e); unsigned n = 0; while (v) { n++; v >>= 1; } return n; }
  if (e->op == ZEXT) return sigBits(e->a);
  if (e->op == CONCAT) { unsigned h = sigBits(e->a); return h ? h + e->b->w : sigBits(e->b); }
  if (e->op == AND) return std::min(sigBits(e->a), sigBits(e->b));
  if (e->op == OR || e->op == XOR) return std::max(sigBits(e->a), sigBits(e->b));
  if (e->op == LSHR && isC(e->b)) { unsigned s = sigBits(e->a); u128 k = cv(e->b); return k >= s ? 0 : s - (unsigned)k; }
  if (e->op == ITE) return std::max(sigBits(e->b), sigBits(e->c));
  if (e->op == ADD) { unsigned s = std::max(sigBits(e->a), sigBits(e->b)) + 1; return std::min<unsigned>(s, e->w); }
  if (e->op == MUL) { unsigned s = sigBits(e->a) + sigBits(e->b); return std::min<unsigned>(s, e->w); }
  if (e->op == UDIV || e->op == UREM) return (e->op == UREM && isC(e->b)) ? std::min(sigBits(e->a), sigBits(e->b)) : sigBits(e->a);
  return e->w;
}
// Unsigned range of the value, from the shape of the expression alone
void range(Expr *e) {
  if (e->ranged) return;
  u128 m = maskw(e->w), lo = 0, hi = m;
  Expr *a = e->a, *b = e->b, *c = e->c;
  switch (e->op) {
  case CONST: lo = hi = cv(e); break;
  case ZEXT: range(a); lo = a->lo; hi = a->hi; break;
  case SEXT: range(a); if (a->hi < ((u128)1 << (a->w - 1))) { lo = a->lo; hi = a->hi; } break;
  case EXTRACT: {
    range(a); u128 l = a->lo >> (unsigned)e->k, h = a->hi >> (unsigned)e->k;
    if (h <= m) { lo = l; hi = h; }
    break; }
  case CONCAT: if (e->w <= 120) { range(a); range(b); lo = (a->lo << b->w) + b->lo; hi = (a->hi << b->w) + b->hi; } break;
  case ADD: if (e->w <= 120) {
    range(a); range(b); u128 l = a->lo + b->lo, h = a->hi + b->hi;
    if (h <= m) { lo = l; hi = h; }
    else if (l > m) { lo = l & m; hi = h & m; }
  } break;
  case SUB: range(a); range(b); if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } break;
  case MUL: range(a); range(b); if (a->hi <= ~0ull && b->hi <= ~0ull && a->hi * b->hi <= m) { lo = a->lo * b->lo; hi = a->hi * b->hi; } break;
  case UDIV: range(a); range(b); if (b->lo) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
  case UREM: range(a); range(b); if (b->lo) { if (isC(b) && a->lo / b->lo == a->hi / b->lo) { lo = a->lo % b->lo; hi = a->hi % b->lo; } else hi = std::min(a->hi, b->hi - 1); } break;
  case AND: range(a); range(b); hi = std::min(a->hi, b->hi); break;
  case OR: { range(a); range(b); lo = std::max(a->lo, b->lo); u128 h = a->hi | b->hi; for (int i = 1; i < 128; i <<= 1) h |= h >> i; hi = h; break; }
  case XOR: { range(a); range(b); u128 h = a->hi | b->hi; for (int i = 1; i < 128; i <<= 1) h |= h >> i; hi = h; break; }
  case LSHR: range(a); hi = a->hi; break;
  case ITE: range(b); range(c); lo = std::min(b->lo, c->lo); hi = std::max(b->hi, c->hi); break;
  default: break;
  }
  e->lo = lo; e->hi = hi; e->ranged = true;
}
// Sum of multiples without overflow: constant and (coefficient, term) pairs
static bool linear(Expr *e, u128 coef, u128 &c, std::vector<std::pair<u128, Expr *>> &t, int depth) {
  if (isC(e)) { c += coef * cv(e); return true; }
  if (depth && t.size() < 24) {
    u128 m = maskw(e->w);
    if (e->op == ZEXT) return linear(e->a, coef, c, t, depth - 1);
    if (e->op == ADD) {
      range(e->a); range(e->b);
      if (e->a->hi + e->b->hi <= m) return linear(e->a, coef, c, t, depth - 1) && linear(e->b, coef, c, t, depth - 1);
      if (isC(e->b) && e->a->lo + e->b->lo > m) { c += coef * (cv(e->b) - m - 1); return linear(e->a, coef, c, t, depth - 1); } // a - constant
    }
    if (e->op == MUL && isC(e->b)) { range(e->a); if (e->a->hi <= m / cv(e->b)) return linear(e->a, coef * cv(e->b), c, t, depth - 1); }
    if (e->op == CONCAT && isC(e->b) && cv(e->b) == 0 && e->b->w < 64) return linear(e->a, coef << e->b->w, c, t, depth - 1); // shift
    if (e->op == EXTRACT && e->k == 0) { range(e->a); if (e->a->hi <= m) return linear(e->a, coef, c, t, depth - 1); }
  }
  t.push_back({coef, e});
  return true;
}
// a = k * q + r with r < k, from the shape of a
static bool splitDiv(Expr *a, u64 k, Expr *&q, Expr *&r) {
  if (a->w > 64 || (a->op != ADD && a->op != ZEXT && a->op != MUL)) return false;
  u128 c = 0;
  std::vector<std::pair<u128, Expr *>> t;
  if (!linear(a, 1, c, t, 40) || !t.size() || t.size() > 24 || (t.size() == 1 && t[0].first < k)) return false;
  std::vector<std::pair<Expr *, u128>> acc; // in order of appearance
  for (auto &x : t) {
    bool f = false;
    for (auto &y : acc) if (y.first == x.second) { y.second += x.first; f = true; }
    if (!f) acc.push_back({x.second, x.first});
  }
  if ((i128)c < 0) return false;
  u128 hi = c % k;
  for (auto &x : acc) if (x.second % k) { range(x.first); hi += (x.second % k) * x.first->hi; if (hi >= k) return false; }
  unsigned w = a->w;
  q = mkConst(c / k, w); r = mkConst(c % k, w);
  for (auto &x : acc) {
    if (x.first->w > w) return false;
    Expr *z = mkZext(x.first, w);
    if (x.second / k) q = mkBin(ADD, q, mkBin(MUL, z, mkConst(x.second / k, w)));
    if (x.second % k) r = mkBin(ADD, r, mkBin(MUL, z, mkConst(x.second % k, w)));
  }
  return true;
}
// A sum of several multiples which does not overflow: one form for it, of the least width
static Expr *canonSum(Expr *e) {
  unsigned w = e->w;
  if (w > 64 || w < 8) return e;
  range(e);
  u128 c = 0;
  std::vector<std::pair<u128, Expr *>> t;
  if (!linear(e, 1, c, t, 40) || t.size() < 2 || t.size() > 24) return e;
  std::sort(t.begin(), t.end(), [](auto &x, auto &y) { return x.second->id < y.second->id; });
  std::vector<std::pair<u128, Expr *>> acc;
  for (auto &x : t) { if (acc.size() && acc.back().second == x.second) acc.back().first += x.first; else acc.push_back(x); }
  i128 hi = (i128)c;
  for (auto &x : acc) { range(x.second); if (x.second->hi > ~0ull || x.first > (1ull << 56)) return e; hi += (i128)(x.first * x.second->hi); }
  if (hi < 0 || (u128)hi > maskw(w)) return e;
  unsigned n = 0;
  while (n < 64 && (hi >> n)) n++;
  if (!n) return e;
  Expr *r = nullptr;
  for (auto &x : acc) {
    Expr *z = x.second->w <= n ? mkZext(x.second, n) : mkExtract(x.second, 0, n);
    if (x.first != 1) z = mk(MUL, n, z, mkConst(x.first, n));
    r = r ? mk(ADD, n, r, z) : z;
  }
  if (c) r = mk(ADD, n, r, mkConst(c, n));
  return mkZext(r, w);
}
// Range of a - b, with the terms both have in common cancelled
static bool linDiff(Expr *a, Expr *b, i128 &lo, i128 &hi) {
  if (a->w > 64 || isC(a) || isC(b)) return false;
  u128 c = 0, d = 0;
  std::vector<std::pair<u128, Expr *>> t, u;
  if (!linear(a, 1, c, t, 40) || !linear(b, 1, d, u, 40) || t.size() + u.size() < 3) return false;
  std::vector<std::pair<Expr *, i128>> acc;
  for (int s = 0; s < 2; s++)
    for (auto &x : s ? u : t) {
      if (x.first > (1ull << 60)) return false;
      i128 k = s ? -(i128)x.first : (i128)x.first;
      bool f = false;
      for (auto &y : acc) if (y.first == x.second) { y.second += k; f = true; }
      if (!f) acc.push_back({x.second, k});
    }
  lo = hi = (i128)(c - d);
  for (auto &x : acc) {
    range(x.first);
    if (x.first->hi >> 62) { if (x.second) return false; continue; }
    i128 p = x.second * (i128)x.first->lo, q = x.second * (i128)x.first->hi;
    lo += std::min(p, q); hi += std::max(p, q);
  }
  return true;
}
static u128 gcd(u128 a, u128 b) { while (b) { u128 t = a % b; a = b; b = t; } return a; }
// Comparison of sums whose terms have a common factor: the factor is divided out
static Expr *cmpGcd(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (w < 16 || w > 64) return nullptr;
  auto fit = [](Expr *e) { return e->op == ADD || e->op == MUL || e->op == ZEXT || isC(e); };
  if (!fit(a) || !fit(b)) return nullptr;
  u128 c[2] = {0, 0}, g = 0;
  std::vector<std::pair<u128, Expr *>> t[2];
  if (!linear(a, 1, c[0], t[0], 40) || !linear(b, 1, c[1], t[1], 40)) return nullptr;
  for (int i = 0; i < 2; i++) {
    if (t[i].size() > 24 || c[i] >> 63) return nullptr;
    for (auto &x : t[i]) { if (x.second->w > w || x.first >> 63) return nullptr; g = gcd(g, x.first); }
  }
  if (g < 10) return nullptr;
  bool ka = t[0].empty(), kb = t[1].empty();
  if (!ka && !kb) { g = gcd(g, c[0]); g = gcd(g, c[1]); if (g < 10) return nullptr; }
  else {
    int i = ka ? 1 : 0; // the side with terms
    if (c[i] % g) { g = gcd(g, c[i]); if (g < 10) return nullptr; }
    u128 k = c[1 - i], q = k / g, r = k % g;
    // a constant against multiples of g
    if (op == EQ && r) return mkConst(0, 1);
    if (r && ((op == ULT && kb) || (op == ULE && ka))) q++;
    c[1 - i] = q * g;
  }
  Expr *s[2];
  for (int i = 0; i < 2; i++) {
    Expr *e = mkConst(c[i] / g, w);
    for (auto &x : t[i]) {
      Expr *z = mkZext(x.second, w);
      e = mkBin(ADD, e, x.first == g ? z : mkBin(MUL, z, mkConst(x.first / g, w)));
    }
    s[i] = e;
  }
  return mkBin(op, s[0], s[1]);
}
static Expr *mkBin0(Op op, Expr *a, Expr *b);
Expr *mkBin(Op op, Expr *a, Expr *b) {
  Expr *r = mkBin0(op, a, b);
  if (op == ADD && r->op == ADD) return canonSum(r);
  return r;
}
static Expr *mkBin0(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  bool cmp = op == EQ || op == ULT || op == ULE || op == SLT || op == SLE;
  unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(evalOp(op, rw, w, cv(a), cv(b)), rw);
  if (cmp && op != SLT && op != SLE) {
    range(a); range(b);
    if (op == EQ && (a->hi < b->lo || b->hi < a->lo)) return mkConst(0, 1);
    if (op == ULT) { if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1); }
    if (op == ULE) { if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(0, 1); }
    i128 l, h;
    if ((a->op == ADD || a->op == ZEXT || a->op == MUL) && (b->op == ADD || b->op == ZEXT || b->op == MUL) && linDiff(a, b, l, h)) {
      if (op == EQ) { if (l > 0 || h < 0) return mkConst(0, 1); if (l == 0 && h == 0) return mkConst(1, 1); }
      if (op == ULT) { if (h < 0) return mkConst(1, 1); if (l >= 0) return mkConst(0, 1); }
      if (op == ULE) { if (h <= 0) return mkConst(1, 1); if (l > 0) return mkConst(0, 1); }
    }
    if (op == EQ || op == ULT || op == ULE) if (Expr *g = cmpGcd(op, a, b)) return g;
  } else if (cmp) {
    range(a); range(b);
    u128 half = (u128)1 << (w - 1);
    if (w > 1 && a->hi < half && b->hi < half) return mkBin(op == SLT ? ULT : ULE, a, b);
  }
  if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  // constant, if any, is now b for commutative operators
  bool bc = isC(b);
  u128 k = bc ? cv(b) : 0;
  switch (op) {
  case ADD:
    if (bc && k == 0) return a;
    if (bc && a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkConst(cv(a->b) + k, w));
    // base + (x - base') and friends: move constants outwards
    if (!bc && a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
    if (!bc && b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
    // disjoint bits: or
    break;
  case SUB:
    if (a == b) return mkConst(0, w);
    if (bc) return mkBin(ADD, a, mkConst((u128)0 - k, w));
    if (a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
    if (b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(SUB, a, b->a), mkConst((u128)0 - cv(b->b), w));
    if (a->op == ADD && a->a == b) return a->b;
    if (a->op == ADD && a->b == b) return a->a;
    break;
  case MUL:
    if (bc && k == 0) return b;
    if (bc && k == 1) return a;
    if (bc && (k & (k - 1)) == 0) { unsigned s = 0; while (!((k >> s) & 1)) s++; return mkBin(SHL, a, mkConst(s, w)); }
    break;
  case UDIV:
    if (bc && k == 1) return a;
    range(a);
    if (bc && a->hi < k) return mkConst(0, w);
    if (bc && k && (k & (k - 1)) == 0) { unsigned s = 0; while (!((k >> s) & 1)) s++; return mkBin(LSHR, a, mkConst(s, w)); }
    if (bc && k) { Expr *q, *r; if (splitDiv(a, (u64)k, q, r)) return q; }
    break;
  case UREM:
    range(a);
    if (bc && a->hi < k) return a;
    if (bc && k && (k & (k - 1)) == 0) return mkBin(AND, a, mkConst(k - 1, w));
    if (bc && k) { Expr *q, *r; if (splitDiv(a, (u64)k, q, r)) return r; }
    break;
  case AND:
    if (a == b) return a;
    if (bc) {
      if (k == 0) return b;
      if (k == maskw(w)) return a;
      if (a->op == AND && isC(a->b)) return mkBin(AND, a->a, mkConst(cv(a->b) & k, w));
      // low mask: zext(extract)
      u128 kk = k + 1;
      if ((kk & k) == 0) { unsigned n = 0; while ((k >> n) & 1) n++; if (n < w) { if (sigBits(a) <= n) return a; return mkZext(mkExtract(a, 0, n), w); } }
      // contiguous field mask m << s
      unsigned s = 0; while (!((k >> s) & 1)) s++;
      u128 top = k >> s;
      if (((top + 1) & top) == 0 && s > 0) {
        unsigned n = 0; while ((top >> n) & 1) n++;
        Expr *f = mkExtract(a, s, n);
        Expr *r = mkConcat(f, mkConst(0, s));
        return mkZext(r, w);
      }
    }
    break;
  case OR:
    if (a == b) return a;
    if (bc && k == 0) return a;
    if (bc && k == maskw(w)) return b;
    if (bc) { // disjoint bits: a sum
      range(a);
      u128 h = a->hi; for (int i = 1; i < 128; i <<= 1) h |= h >> i;
      if (!(h & k)) return mkBin(ADD, a, b);
    }
    // disjoint fields produced by shifts and extensions: rebuild as concatenation
    for (int sw = 0; sw < 2; sw++) {
      Expr *x = sw ? b : a, *y = sw ? a : b; // y low, x high
      unsigned lowz = 0;
      if (x->op == CONCAT && isC(x->b) && cv(x->b) == 0) lowz = x->b->w;
      else if (x->op == ZEXT && x->a->op == CONCAT && isC(x->a->b) && cv(x->a->b) == 0) lowz = x->a->b->w;
      if (lowz && sigBits(y) <= lowz) return mkConcat(mkExtract(x, lowz, w - lowz), mkExtract(y, 0, lowz));
      if (lowz && !isC(y)) {
        // byte-wise overlap-free merge: x has zero low bits, y has zero bits where x is non-zero
      }
    }
    break;
  case XOR:
    if (a == b) return mkConst(0, w);
    if (bc && k == 0) return a;
    if (bc && a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkConst(cv(a->b) ^ k, w));
    if (a->op == XOR) {
      if (a->a == b) return a->b;
      if (a->b == b) return a->a;
    }
    if (b->op == XOR) {
      if (b->a == a) return b->b;
      if (b->b == a) return b->a;
    }
    if (w == 1 && bc && k == 1) {
      if (a->op == ULT) return mkBin(ULE, a->b, a->a);
      if (a->op == ULE) return mkBin(ULT, a->b, a->a);
      if (a->op == SLT) return mkBin(SLE, a->b, a->a);
      if (a->op == SLE) return mkBin(SLT, a->b, a->a);
      if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(cv(a->b) ^ 1, 1), mkConst(cv(a->c) ^ 1, 1));
    }
    break;
  case SHL:
    if (bc && k == 0) return a;
    if (bc && k >= w) return mkConst(0, w);
    if (bc) return mkConcat(mkExtract(a, 0, w - (unsigned)k), mkConst(0, (unsigned)k));
    break;
  case LSHR:
    if (bc && k == 0) return a;
    if (bc && k >= w) return mkConst(0, w);
    if (bc) return mkZext(mkExtract(a, (unsigned)k, w - (unsigned)k), w);
    break;
  case ASHR:
    if (bc && k == 0) return a;
    if (bc) { if (k >= w) k = w - 1; return mkSext(mkExtract(a, (unsigned)k, w - (unsigned)k), w); }
    break;
  case EQ:
    if (a == b) return mkConst(1, 1);
    if (w == 1 && bc) return k ? a : mkNot(a);
    if (bc) {
      if (sigBits(b) > sigBits(a)) return mkConst(0, 1);
      if (a->op == ADD && isC(a->b)) return mkBin(EQ, a->a, mkConst(k - cv(a->b), w));
      if (a->op == XOR && isC(a->b)) return mkBin(EQ, a->a, mkConst(k ^ cv(a->b), w));
      if (a->op == SUB && isC(a->a)) return mkBin(EQ, a->b, mkConst(cv(a->a) - k, w));
      if (a->op == ZEXT) return (k >> a->a->w) ? mkConst(0, 1) : mkBin(EQ, a->a, mkConst(k, a->a->w));
      if (a->op == SEXT) { Expr *t = mkConst(k, a->a->w); return evalOp(SEXT, w, a->a->w, cv(t), 0) == k ? mkBin(EQ, a->a, t) : mkConst(0, 1); }
      if (a->op == CONCAT) return mkBin(AND, mkBin(EQ, a->a, mkConst(k >> a->b->w, a->a->w)), mkBin(EQ, a->b, mkConst(k, a->b->w)));
      if (a->op == ITE && (isC(a->b) || isC(a->c))) {
        return mkIte(a->a, mkBin(EQ, a->b, b), mkBin(EQ, a->c, b));
      }
    } else {
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
      if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return mkBin(AND, mkBin(EQ, a->a, b->a), mkBin(EQ, a->b, b->b));
    }
    break;
  case ULT:
    if (a == b) return mkConst(0, 1);
    if (bc && k == 0) return mkConst(0, 1);
    if (bc && k == 1) return mkBin(EQ, a, mkConst(0, w));
    if (isC(a) && cv(a) == maskw(w)) return mkConst(0, 1);
    if (isC(a) && cv(a) == 0) return mkNot(mkBin(EQ, b, a));
    if (bc && sigBits(a) < 128 && ((u128)1 << sigBits(a)) <= k) return mkConst(1, 1);
    if (isC(a) && sigBits(b) < sigBits(a)) return mkConst(0, 1);
    goto ucmp;
  case ULE:
    if (a == b) return mkConst(1, 1);
    if (bc && k == maskw(w)) return mkConst(1, 1);
    if (bc && k == 0) return mkBin(EQ, a, b);
    if (isC(a) && cv(a) == 0) return mkConst(1, 1);
    if (bc && sigBits(a) < 128 && ((u128)1 << sigBits(a)) - 1 <= k) return mkConst(1, 1);
    if (isC(a) && sigBits(b) < sigBits(a)) return mkConst(0, 1);
  ucmp: {
    Expr *x = a->op == ZEXT ? a : nullptr, *y = b->op == ZEXT ? b : nullptr;
    if (x && y && x->a->w == y->a->w) return mkBin(op, x->a, y->a);
    if (x && bc && !(k >> x->a->w)) return mkBin(op, x->a, mkConst(k, x->a->w));
    if (y && isC(a) && !(cv(a) >> y->a->w)) return mkBin(op, mkConst(cv(a), y->a->w), y->a);
    if (bc && a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    break;
  }
  case SLT:
  case SLE: {
    if (a == b) return mkConst(op == SLE, 1);
    // both non-negative: unsigned
    if (sigBits(a) < w && sigBits(b) < w) return mkBin(op == SLT ? ULT : ULE, a, b);
    // comparisons with zero / -1 look at the sign bit only
    if (op == SLT && bc && k == 0) return mkExtract(a, w - 1, 1);
    if (op == SLT && isC(a) && cv(a) == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
    if (op == SLE && isC(a) && cv(a) == 0) return mkNot(mkExtract(b, w - 1, 1));
    if (a->op == SEXT && bc) { Expr *t = mkConst(k, a->a->w); if (evalOp(SEXT, w, a->a->w, cv(t), 0) == k) return mkBin(op, a->a, t); }
    if (b->op == SEXT && isC(a)) { Expr *t = mkConst(cv(a), b->a->w); if (evalOp(SEXT, w, b->a->w, cv(t), 0) == cv(a)) return mkBin(op, t, b->a); }
    break;
  }
  default: break;
  }
  return mk(op, rw, a, b);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return cv(c) ? a : b;
  if (a == b) return a;
  if (c->op == XOR && c->w == 1 && isC(c->b)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return cv(a) ? c : mkNot(c);
    if (isC(a)) return cv(a) ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
    if (isC(b)) return cv(b) ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
  }
  if (a->op == ITE && a->a == c) a = a->b;
  if (b->op == ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return mk(ITE, a->w, c, a, b);
}
Expr *mkZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(cv(a), w);
  if (a->op == ZEXT) return mkZext(a->a, w);
  if (a->op == EXTRACT && a->k == 0 && a->a->w <= w) { // nothing was cut off
    range(a->a);
    if (a->a->hi <= maskw(a->w)) return mkZext(a->a, w);
  }
  return mk(ZEXT, w, a);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u128)sx128(cv(a), a->w), w);
  if (a->op == ZEXT) return mkZext(a->a, w);
  if (a->op == SEXT) return mkSext(a->a, w);
  if (a->w > 1 && sigBits(a) < a->w) return mkZext(a, w);
  return mk(SEXT, w, a);
}
static bool hasMul(Expr *e) { // a sum with a multiple in it
  for (int i = 0; i < 30; i++) {
    if (e->op == MUL) return true;
    if (e->op != ADD && e->op != SUB) return false;
    if (e->b->op == MUL) return true;
    e = e->a;
  }
  return false;
}
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(cv(a) >> lo, w);
  switch (a->op) {
  case EXTRACT: return mkExtract(a->a, (unsigned)a->k + lo, w);
  case CONCAT: {
    unsigned lw = a->b->w;
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
  }
  case ZEXT: {
    unsigned iw = a->a->w;
    if (lo >= iw) return mkConst(0, w);
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    return mkZext(mkExtract(a->a, lo, iw - lo), w);
  }
  case SEXT: {
    unsigned iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo < iw) return mkSext(mkExtract(a->a, lo, iw - lo), w);
    return mkSext(mkExtract(a->a, iw - 1, 1), w);
  }
  case AND: case OR: case XOR:
    return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case ADD: case SUB: case MUL:
    // sums of multiples (decimal numbers) stay whole: their slices are put together again
    if (lo == 0 && a->op != MUL && !hasMul(a)) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case ITE:
    if (isC(a->b) || isC(a->c) || w == 1) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
  default: break;
  }
  return mk(EXTRACT, w, a, 0, 0, lo);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  if (isC(hi) && isC(lo)) return mkConst((cv(hi) << lo->w) | cv(lo), hi->w + lo->w);
  if (isC(hi) && cv(hi) == 0) return mkZext(lo, hi->w + lo->w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return mkExtract(hi->a, (unsigned)lo->k, hi->w + lo->w);
  if (hi->op == EXTRACT && hi->a == lo && hi->k == lo->w) return mkExtract(lo, 0, hi->w + lo->w); // unreachable shape, harmless
  if (hi->op == ZEXT) { return mkZext(mkConcat(hi->a, lo), hi->w + lo->w); }
  // right-associate so that equal values get equal shapes
  if (lo->op == CONCAT && hi->op == EXTRACT && lo->a->op == EXTRACT && hi->a == lo->a->a && hi->k == lo->a->k + lo->a->w)
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->k, hi->w + lo->a->w), lo->b);
  if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (isC(hi) && lo->op == CONCAT && isC(lo->a)) return mkConcat(mkConst((cv(hi) << lo->a->w) | cv(lo->a), hi->w + lo->a->w), lo->b);
  if (hi->op == SEXT && lo->op == CONCAT) { }
  return mk(CONCAT, hi->w + lo->w, hi, lo);
}
Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c) {
  switch (e->op) {
  case ITE: return mkIte(a, b, c);
  case ZEXT: return mkZext(a, e->w);
  case SEXT: return mkSext(a, e->w);
  case EXTRACT: return mkExtract(a, (unsigned)e->k, e->w);
  case CONCAT: return mkConcat(a, b);
  case FADD: case FSUB: case FMUL: case FDIV: case FREM: case FOEQ: case FOLT: case FOLE: case FUNO:
  case SITOFP: case UITOFP: case FPTOSI: case FPTOUI: case FPEXT: case FPTRUNC:
    return mkFp(e->op, e->w, a, b);
  default: return mkBin(e->op, a, b);
  }
}
const std::vector<u32> &symsOf(Expr *e) {
  if (e->syms) return *e->syms;
  auto s = std::make_shared<std::vector<u32>>();
  if (e->op == SYM) s->push_back((u32)e->k);
  else {
    Expr *ch[3] = {e->a, e->b, e->c};
    for (Expr *x : ch) {
      if (!x || x->op == CONST) continue;
      const auto &o = symsOf(x);
      if (s->empty()) { *s = o; continue; }
      std::vector<u32> r;
      std::set_union(s->begin(), s->end(), o.begin(), o.end(), std::back_inserter(r));
      s->swap(r);
    }
  }
  e->syms = s;
  return *e->syms;
}
static u32 curStamp = 0;
static u128 ev(Expr *e, const std::vector<u8> &asg) {
  if (e->op == CONST) return cv(e);
  if (e->stamp == curStamp) return e->ev;
  u128 r;
  switch (e->op) {
  case SYM: r = e->k < asg.size() ? asg[e->k] : 0; break;
  case ITE: r = ev(e->a, asg) ? ev(e->b, asg) : ev(e->c, asg); break;
  case EXTRACT: r = (ev(e->a, asg) >> (unsigned)e->k) & maskw(e->w); break;
  case CONCAT: r = (ev(e->a, asg) << e->b->w) | ev(e->b, asg); break;
  default: r = evalOp(e->op, e->w, e->a->w, ev(e->a, asg), e->b ? ev(e->b, asg) : 0);
  }
  e->stamp = curStamp;
  e->ev = r;
  return r;
}
u128 evalExpr(Expr *e, const std::vector<u8> &asg) { curStamp++; return ev(e, asg); }
bool evalAll(const std::vector<Expr *> &es, const std::vector<u8> &asg) {
  curStamp++;
  for (Expr *e : es) if (!ev(e, asg)) return false;
  return true;
}

static const char *opn[] = {"const", "sym", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "zext", "sext", "ext", "cat", "fadd", "fsub", "fmul", "fdiv", "frem", "foeq", "folt", "fole", "funo", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "agg"};
std::string show(Expr *e, int d) {
  if (!e) return "null";
  if (e->op == CONST) { char t[64]; if (e->k2) snprintf(t, 64, "0x%lx%016lx", e->k2, e->k); else snprintf(t, 64, "0x%lx", e->k); return std::string(t) + ":" + std::to_string(e->w); }
  if (e->op == SYM) return symNames[e->k];
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == EXTRACT) s += "[" + std::to_string(e->k) + "+" + std::to_string(e->w) + "]";
  if (e->op == ZEXT || e->op == SEXT) s += std::to_string(e->w);
  for (Expr *x : {e->a, e->b, e->c}) if (x) s += " " + show(x, d - 1);
  return s + ")";
}

// ---- Z3 ----
static Z3_context ctx;
static Z3_solver slv, slvFp;
static std::unordered_map<Expr *, Z3_ast> z3cache;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
static void initz3() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(ctx, z3err);
  slv = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, slv);
  static unsigned quick = getenv("SX_QUICK_MS") ? atoi(getenv("SX_QUICK_MS")) : 150;
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::min(quick, solverTimeoutMs));
  Z3_solver_set_params(ctx, slv, p);
}
static bool hasFp(Expr *e, std::unordered_map<Expr *, bool> &m) {
  if (!e || e->op == CONST || e->op == SYM) return false;
  auto it = m.find(e);
  if (it != m.end()) return it->second;
  bool r = (e->op >= FADD && e->op <= FPTRUNC) || hasFp(e->a, m) || hasFp(e->b, m) || hasFp(e->c, m);
  m[e] = r;
  return r;
}
static Z3_ast tz(Expr *e);
// a reference-counted context keeps only the latest result alive: hold every term and sort
static inline Z3_ast K(Z3_ast x) { Z3_inc_ref(ctx, x); return x; }
static Z3_sort bvs(unsigned w) { static std::map<unsigned, Z3_sort> m; Z3_sort &r = m[w]; if (!r) { r = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, r)); } return r; }
static Z3_sort fps(unsigned w) { static std::map<unsigned, Z3_sort> m; Z3_sort &r = m[w]; if (!r) { r = w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, r)); } return r; }
static Z3_ast b2v(Z3_ast b) { // bool -> bv1
  Z3_sort s = bvs(1);
  return K(Z3_mk_ite(ctx, b, K(Z3_mk_unsigned_int64(ctx, 1, s)), K(Z3_mk_unsigned_int64(ctx, 0, s))));
}
static Z3_ast v2b(Z3_ast v) { return K(Z3_mk_eq(ctx, v, K(Z3_mk_unsigned_int64(ctx, 1, bvs(1))))); }
static std::unordered_map<Expr *, Z3_ast> z3bcache;
static Z3_ast tb(Expr *e) { // width-1 expression as a Bool
  auto it = z3bcache.find(e);
  if (it != z3bcache.end()) return it->second;
  Z3_ast r;
  auto fs = [&](Expr *x) { return fps(x->w); };
  auto fp = [&](Expr *x) { return K(Z3_mk_fpa_to_fp_bv(ctx, tz(x), fs(x))); };
  switch (e->op) {
  case CONST: r = cv(e) ? K(Z3_mk_true(ctx)) : K(Z3_mk_false(ctx)); break;
  case EQ: r = K(Z3_mk_eq(ctx, tz(e->a), tz(e->b))); break;
  case ULT: r = K(Z3_mk_bvult(ctx, tz(e->a), tz(e->b))); break;
  case ULE: r = K(Z3_mk_bvule(ctx, tz(e->a), tz(e->b))); break;
  case SLT: r = K(Z3_mk_bvslt(ctx, tz(e->a), tz(e->b))); break;
  case SLE: r = K(Z3_mk_bvsle(ctx, tz(e->a), tz(e->b))); break;
  case AND: { Z3_ast x[2] = {tb(e->a), tb(e->b)}; r = K(Z3_mk_and(ctx, 2, x)); break; }
  case OR: { Z3_ast x[2] = {tb(e->a), tb(e->b)}; r = K(Z3_mk_or(ctx, 2, x)); break; }
  case XOR: if (isC(e->b) && cv(e->b)) r = K(Z3_mk_not(ctx, tb(e->a))); else r = K(Z3_mk_xor(ctx, tb(e->a), tb(e->b))); break;
  case ITE: r = K(Z3_mk_ite(ctx, tb(e->a), tb(e->b), tb(e->c))); break;
  case FOEQ: r = K(Z3_mk_fpa_eq(ctx, fp(e->a), fp(e->b))); break;
  case FOLT: r = K(Z3_mk_fpa_lt(ctx, fp(e->a), fp(e->b))); break;
  case FOLE: r = K(Z3_mk_fpa_leq(ctx, fp(e->a), fp(e->b))); break;
  case FUNO: { Z3_ast x[2] = {K(Z3_mk_fpa_is_nan(ctx, fp(e->a))), K(Z3_mk_fpa_is_nan(ctx, fp(e->b)))}; r = K(Z3_mk_or(ctx, 2, x)); break; }
  default: r = v2b(tz(e));
  }
  Z3_inc_ref(ctx, r);
  z3bcache[e] = r;
  return r;
}
static Z3_ast tz(Expr *e) {
  auto it = z3cache.find(e);
  if (it != z3cache.end()) return it->second;
  Z3_ast r;
  Z3_sort srt = bvs(e->w);
  auto fs = [&](unsigned w) { return fps(w); };
  auto fp = [&](Expr *x) { return K(Z3_mk_fpa_to_fp_bv(ctx, tz(x), fs(x->w))); };
  auto back = [&](Z3_ast f) { return K(Z3_mk_fpa_to_ieee_bv(ctx, f)); };
  Z3_ast rne = nullptr;
  if (e->op >= FADD && e->op <= FPTRUNC) rne = K(Z3_mk_fpa_rne(ctx));
  switch (e->op) {
  case CONST:
    if (e->w <= 64) r = K(Z3_mk_unsigned_int64(ctx, e->k, srt));
    else r = K(Z3_mk_concat(ctx, K(Z3_mk_unsigned_int64(ctx, e->k2, bvs(e->w - 64))), K(Z3_mk_unsigned_int64(ctx, e->k, bvs(64)))));
    break;
  case SYM: r = K(Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->k), srt)); break;
  case ADD: r = K(Z3_mk_bvadd(ctx, tz(e->a), tz(e->b))); break;
  case SUB: r = K(Z3_mk_bvsub(ctx, tz(e->a), tz(e->b))); break;
  case MUL: r = K(Z3_mk_bvmul(ctx, tz(e->a), tz(e->b))); break;
  case UDIV: r = K(Z3_mk_bvudiv(ctx, tz(e->a), tz(e->b))); break;
  case SDIV: r = K(Z3_mk_bvsdiv(ctx, tz(e->a), tz(e->b))); break;
  case UREM: r = K(Z3_mk_bvurem(ctx, tz(e->a), tz(e->b))); break;
  case SREM: r = K(Z3_mk_bvsrem(ctx, tz(e->a), tz(e->b))); break;
  case AND: r = e->w == 1 ? b2v(tb(e)) : K(Z3_mk_bvand(ctx, tz(e->a), tz(e->b))); break;
  case OR: r = e->w == 1 ? b2v(tb(e)) : K(Z3_mk_bvor(ctx, tz(e->a), tz(e->b))); break;
  case XOR: r = e->w == 1 ? b2v(tb(e)) : K(Z3_mk_bvxor(ctx, tz(e->a), tz(e->b))); break;
  case SHL: r = K(Z3_mk_bvshl(ctx, tz(e->a), tz(e->b))); break;
  case LSHR: r = K(Z3_mk_bvlshr(ctx, tz(e->a), tz(e->b))); break;
  case ASHR: r = K(Z3_mk_bvashr(ctx, tz(e->a), tz(e->b))); break;
  case EQ: case ULT: case ULE: case SLT: case SLE: case FOEQ: case FOLT: case FOLE: case FUNO: r = b2v(tb(e)); break;
  case ITE: r = K(Z3_mk_ite(ctx, tb(e->a), tz(e->b), tz(e->c))); break;
  case ZEXT: r = K(Z3_mk_zero_ext(ctx, e->w - e->a->w, tz(e->a))); break;
  case SEXT: r = K(Z3_mk_sign_ext(ctx, e->w - e->a->w, tz(e->a))); break;
  case EXTRACT: r = K(Z3_mk_extract(ctx, (unsigned)e->k + e->w - 1, (unsigned)e->k, tz(e->a))); break;
  case CONCAT: r = K(Z3_mk_concat(ctx, tz(e->a), tz(e->b))); break;
  case FADD: r = back(K(Z3_mk_fpa_add(ctx, rne, fp(e->a), fp(e->b)))); break;
  case FSUB: r = back(K(Z3_mk_fpa_sub(ctx, rne, fp(e->a), fp(e->b)))); break;
  case FMUL: r = back(K(Z3_mk_fpa_mul(ctx, rne, fp(e->a), fp(e->b)))); break;
  case FDIV: r = back(K(Z3_mk_fpa_div(ctx, rne, fp(e->a), fp(e->b)))); break;
  case SITOFP: r = back(K(Z3_mk_fpa_to_fp_signed(ctx, rne, tz(e->a), fs(e->w)))); break;
  case UITOFP: r = back(K(Z3_mk_fpa_to_fp_unsigned(ctx, rne, tz(e->a), fs(e->w)))); break;
  case FPTOSI: r = K(Z3_mk_fpa_to_sbv(ctx, K(Z3_mk_fpa_rtz(ctx)), fp(e->a), e->w)); break;
  case FPTOUI: r = K(Z3_mk_fpa_to_ubv(ctx, K(Z3_mk_fpa_rtz(ctx)), fp(e->a), e->w)); break;
  case FPEXT: case FPTRUNC: r = back(K(Z3_mk_fpa_to_fp_float(ctx, rne, fp(e->a), fs(e->w)))); break;
  default: fprintf(stderr, "tz: op %d\n", e->op); exit(3);
  }
  Z3_inc_ref(ctx, r);
  z3cache[e] = r;
  return r;
}
struct VecH { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
struct CacheEnt { bool sat; std::vector<std::pair<u32, u8>> model; };
static std::unordered_map<std::vector<u32>, CacheEnt, VecH> qcache;
static u64 dumpN = 0;
static void setTimeout(Z3_solver S, unsigned ms) {
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, S, p);
  Z3_params_dec_ref(ctx, p);
}
static Z3_solver freshSolver(const char *logic) {
  Z3_solver S = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic));
  Z3_solver_inc_ref(ctx, S);
  setTimeout(S, solverTimeoutMs);
  return S;
}
bool solve(const std::vector<Expr *> &cs, std::vector<std::pair<u32, u8>> *model) {
  std::vector<u32> key;
  for (Expr *c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end()) { stats.cacheHits++; if (model) *model = it->second.model; return it->second.sat; }
  initz3();
  auto t0 = std::chrono::steady_clock::now();
  std::set<u32> syms;
  std::unordered_map<Expr *, bool> fpm;
  bool fpq = false;
  for (Expr *c : cs) { for (u32 s : symsOf(c)) syms.insert(s); fpq |= hasFp(c, fpm); }
  Z3_solver S = slv;
  if (fpq) {
    S = freshSolver("QF_FPBV");
  } else Z3_solver_push(ctx, S);
  for (Expr *c : cs) Z3_solver_assert(ctx, S, tb(c));
  Z3_lbool r = Z3_solver_check(ctx, S);
  if (r == Z3_L_UNDEF && !fpq) { // second attempt with the full bit-vector strategy
    Z3_solver T = freshSolver("QF_BV");
    for (Expr *c : cs) Z3_solver_assert(ctx, T, tb(c));
    r = Z3_solver_check(ctx, T);
    Z3_solver_pop(ctx, S, 1);
    S = T; fpq = true;
    stats.second++;
  }
  CacheEnt ent;
  ent.sat = r == Z3_L_TRUE;
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(ctx, S);
    Z3_model_inc_ref(ctx, m);
    for (u32 s : syms) {
      Z3_ast v = nullptr;
      Z3_ast x = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)s), bvs(8));
      Z3_inc_ref(ctx, x);
      uint64_t n = 0;
      if (Z3_model_eval(ctx, m, x, true, &v)) Z3_get_numeral_uint64(ctx, v, &n);
      Z3_dec_ref(ctx, x);
      ent.model.push_back({s, (u8)n});
    }
    Z3_model_dec_ref(ctx, m);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  stats.seconds += dt;
  stats.maxq = std::max(stats.maxq, dt);
  stats.queries++;
  if (!smtDumpDir.empty() && (dt > 0.2) && dumpN < 400) {
    FILE *f = fopen((smtDumpDir + "/q" + std::to_string(dumpN++) + (r == Z3_L_TRUE ? ".sat" : ".unsat") + "." + std::to_string((int)(dt * 1000)) + ".smt2").c_str(), "w");
    fprintf(f, "(set-logic ALL)\n%s(check-sat)\n", Z3_solver_to_string(ctx, S));
    fclose(f);
  }
  if (fpq) Z3_solver_dec_ref(ctx, S); else Z3_solver_pop(ctx, S, 1);
  if (r == Z3_L_UNDEF) { stats.unknown++; throw SolverUnknown(); }
  (ent.sat ? stats.sat : stats.unsat)++;
  if (model) *model = ent.model;
  bool res = ent.sat;
  qcache.emplace(std::move(key), std::move(ent));
  return res;
}
