// Textual LLVM IR: types, globals, functions (bodies parsed on demand).
#pragma once
#include "expr.h"

struct Ty {
  enum K : u8 { VOID, INT, FLT, PTR, STRUCT, ARRAY, VEC, LABEL, META } k;
  unsigned w = 0; // bits of INT / FLT / PTR
  u64 n = 0;      // ARRAY / VEC length
  Ty *el = nullptr;
  std::vector<Ty *> fs;
  std::vector<u64> off; // STRUCT field offsets
  u64 size = 0, align = 1; // bytes (alloc size)
  bool scalar() const { return k == INT || k == FLT || k == PTR; }
  struct Leaf { u64 off; unsigned w; };
  std::vector<Leaf> leaves;
  bool leavesDone = false;
  const std::vector<Leaf> &lv();
};

struct Opnd {
  int slot = -1;      // first register slot, -1: constant
  unsigned w = 0;     // bits when scalar
  u32 n = 1;          // number of leaves
  Val v;              // constant scalar
  std::vector<Val> agg; // constant aggregate
  Ty *ty = nullptr;
};

enum Opc : u8 {
  O_RET, O_BR, O_CBR, O_SWITCH, O_UNREACHABLE, O_CALL, O_BIN, O_ICMP, O_FCMP, O_SELECT, O_LOAD, O_STORE, O_GEP, O_ALLOCA,
  O_CAST, O_PHI, O_EXTRACTV, O_INSERTV, O_NOP, O_RMW, O_CMPXCHG, O_FREEZE, O_SHUFFLE, O_INSEL, O_EXTEL, O_LANDINGPAD, O_RESUME, O_FNEG
};
enum BinK : u8 { B_ADD, B_SUB, B_MUL, B_UDIV, B_SDIV, B_UREM, B_SREM, B_AND, B_OR, B_XOR, B_SHL, B_LSHR, B_ASHR, B_FADD, B_FSUB, B_FMUL, B_FDIV, B_FREM };
enum CmpK : u8 { C_EQ, C_NE, C_ULT, C_ULE, C_UGT, C_UGE, C_SLT, C_SLE, C_SGT, C_SGE, F_OEQ, F_OGT, F_OGE, F_OLT, F_OLE, F_ONE, F_ORD, F_UNO, F_UEQ, F_UGT, F_UGE, F_ULT, F_ULE, F_UNE, F_TRUE, F_FALSE };
enum CastK : u8 { K_ZEXT, K_SEXT, K_TRUNC, K_PTRTOINT, K_INTTOPTR, K_BITCAST, K_UITOFP, K_SITOFP, K_FPTOUI, K_FPTOSI, K_FPEXT, K_FPTRUNC };

struct Fn;
struct Inst {
  Opc op; u8 sub = 0;
  int dst = -1; u32 ndst = 0;
  Ty *ty = nullptr;
  std::vector<Opnd> a;
  std::vector<u64> idx;   // extractvalue leaf start / switch case values / gep scales / phi preds
  std::vector<int> tgt;   // branch targets, switch targets
  u64 off = 0;            // gep constant part, alloca align
  Fn *callee = nullptr;
  u32 line = 0;
  std::vector<u32> stamps; // unused
};
struct Block { std::string name; u32 first = 0; };
struct Fn {
  std::string name;
  u64 addr = 0;
  const char *body = nullptr; // points at the define line; null for declarations
  bool parsed = false;
  std::vector<Inst> code;
  std::vector<Block> blocks;
  u32 nslots = 0;
  std::vector<int> argSlot; std::vector<Ty *> argTy;
  Ty *ret = nullptr;
  int kind = 0;        // resolved intrinsic / runtime function, 0: unresolved, 1: ordinary
  bool panicky = false;
  u64 execs = 0;
};
struct Global {
  std::string name; u64 addr = 0, size = 0, align = 1; bool ro = false, ext = false;
  const char *init = nullptr; Ty *ty = nullptr;
};
struct Module {
  std::string text;
  std::unordered_map<std::string, Fn *> fns;
  std::vector<Fn *> fnByIdx;
  std::unordered_map<std::string, Global *> globals;
  std::vector<Global *> gByIdx;
  void load(const std::string &path);
  void parseBody(Fn *f);
  // initial bytes of a global
  void initBytes(Global *g, std::vector<u8> &out);
};
extern Module M;
static const u64 GBASE = 0x100000000000ull, GSTEP = 1 << 20, FBASE = 0x700000000000ull, HBASE = 0x200000000000ull;
[[noreturn]] void die(const char *fmt, ...);
