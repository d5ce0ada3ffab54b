// Hash-consed bit-vector expressions, their simplifying constructors, a concrete
// evaluator and the translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <cmath>
#include <z3.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint8_t u8;
typedef uint32_t u32;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : u8 {
  CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
  FADD, FSUB, FMUL, FDIV, FREM, FOEQ, FOLT, FOLE, FUNO, SITOFP, UITOFP, FPTOSI, FPTOUI, FPEXT, FPTRUNC,
  AGG
};

struct Expr;
struct Val {
  u64 c = 0;
  Expr *e = nullptr; // null: concrete (width known from the type)
};

struct Expr {
  Op op;
  bool undef;   // depends on an uninitialised byte
  uint16_t w;
  u32 id;
  Expr *a, *b, *c;
  u64 k, k2;
  u32 stamp = 0;
  bool ranged = false;
  u128 lo = 0, hi = 0; // unsigned range, once computed
  u128 ev = 0;
  std::shared_ptr<std::vector<u32>> syms;
  std::vector<Val> *el = nullptr; // AGG
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx64(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static inline i128 sx128(u128 v, unsigned w) { return w >= 128 ? (i128)v : (i128)(v << (128 - w)) >> (128 - w); }

struct Key {
  Op op; uint16_t w; Expr *a, *b, *c; u64 k, k2;
  bool operator==(const Key &o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && k == o.k && k2 == o.k2; }
};
struct KeyH {
  size_t operator()(const Key &x) const {
    u64 h = x.op * 0x9E3779B97F4A7C15ull + x.w;
    auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix((u64)x.a >> 4); mix((u64)x.b >> 4); mix((u64)x.c >> 4); mix(x.k); mix(x.k2);
    return h;
  }
};

extern std::vector<std::string> symNames;
extern std::vector<bool> symUndef;

Expr *mk(Op op, unsigned w, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, u64 k = 0, u64 k2 = 0);
Expr *mkConst(u128 v, unsigned w);
Expr *mkSym(const std::string &name, bool undef);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkNot(Expr *a);               // width 1
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkFp(Op op, unsigned w, Expr *a, Expr *b = nullptr);
void range(Expr *e); // fills lo, hi
static inline bool isC(Expr *e) { return e->op == CONST; }
static inline u128 cv(Expr *e) { return ((u128)e->k2 << 64) | e->k; }
const std::vector<u32> &symsOf(Expr *e);
u128 evalOp(Op op, unsigned w, unsigned aw, u128 a, u128 b);
// Evaluate under an assignment of symbols
u128 evalExpr(Expr *e, const std::vector<u8> &asg);
bool evalAll(const std::vector<Expr *> &es, const std::vector<u8> &asg);
Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c);
std::string show(Expr *e, int depth = 6);

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, cacheHits = 0, unknown = 0, second = 0; double seconds = 0, maxq = 0; };
extern SolverStats stats;
extern unsigned solverTimeoutMs;
struct SolverUnknown {};
// satisfiability of the conjunction; on sat fills the values of the symbols involved
bool solve(const std::vector<Expr *> &cs, std::vector<std::pair<u32, u8>> *model);
extern std::string smtDumpDir;
