#include "ir.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
Module M;
void die(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); fprintf(stderr, "sx: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
  exit(3);
}
const std::vector<Ty::Leaf> &Ty::lv() {
  if (leavesDone) return leaves;
  leavesDone = true;
  if (scalar()) leaves.push_back({0, w});
  else if (k == STRUCT) { for (size_t i = 0; i < fs.size(); i++) for (auto &l : fs[i]->lv()) leaves.push_back({off[i] + l.off, l.w}); }
  else if (k == ARRAY || k == VEC) { for (u64 i = 0; i < n; i++) for (auto &l : el->lv()) leaves.push_back({i * el->size + l.off, l.w}); }
  return leaves;
}
static std::map<std::string, Ty *> tyTab;
static Ty *intTy(unsigned w) {
  static std::map<unsigned, Ty *> m;
  Ty *&t = m[w];
  if (!t) {
    t = new Ty(); t->k = Ty::INT; t->w = w;
    u64 b = (w + 7) / 8, a = 1; while (a < b) a <<= 1; if (a > 16) a = 16;
    t->align = a; t->size = (b + a - 1) / a * a;
  }
  return t;
}
static Ty *mkT(Ty::K k, unsigned w, u64 size, u64 align) { Ty *t = new Ty(); t->k = k; t->w = w; t->size = size; t->align = align; return t; }
static Ty *tVoid = mkT(Ty::VOID, 0, 0, 1), *tPtr = mkT(Ty::PTR, 64, 8, 8), *tF = mkT(Ty::FLT, 32, 4, 4), *tD = mkT(Ty::FLT, 64, 8, 8), *tLabel = mkT(Ty::LABEL, 0, 0, 1), *tMeta = mkT(Ty::META, 0, 0, 1);

enum TK : u8 { T_EOF, T_WORD, T_REG, T_GLOB, T_NUM, T_STR, T_CSTR, T_P, T_META, T_ATTR, T_LABELDEF };
struct Lex {
  const char *p;
  TK k = T_EOF; std::string s; bool nl = false; const char *start = nullptr;
  Lex(const char *q) : p(q) { next(); }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '.' || c == '_' || c == '$' || c == '-'; }
  void next() {
    nl = false;
    for (;;) {
      if (*p == '\n') { nl = true; p++; }
      else if (*p == ' ' || *p == '\t' || *p == '\r') p++;
      else if (*p == ';') { while (*p && *p != '\n') p++; }
      else break;
    }
    start = p;
    s.clear();
    if (!*p) { k = T_EOF; return; }
    char c = *p;
    auto quoted = [&]() { // at opening quote
      p++; const char *q = p; while (*q && *q != '"') q++;
      s.assign(p, q); p = *q ? q + 1 : q;
    };
    if (c == '%' || c == '@') {
      k = c == '%' ? T_REG : T_GLOB; p++;
      if (*p == '"') quoted(); else { const char *q = p; while (idc(*q)) q++; s.assign(p, q); p = q; }
      return;
    }
    if (c == '!') { p++; k = T_META; if (*p == '{' ) { return; } const char *q = p; while (idc(*q)) q++; s.assign(p, q); p = q; return; }
    if (c == '#') { p++; k = T_ATTR; const char *q = p; while (idc(*q)) q++; s.assign(p, q); p = q; return; }
    if (c == '"') { quoted(); if (*p == ':') { p++; k = T_LABELDEF; } else k = T_STR; return; }
    if (c == 'c' && p[1] == '"') { p++; quoted(); k = T_CSTR; return; }
    if (isdigit((unsigned char)c) || ((c == '-' || c == '+') && (isalnum((unsigned char)p[1])))) {
      const char *q = p + 1; bool dot = false;
      while (isalnum((unsigned char)*q) || *q == '.' || (dot && (*q == '+' || *q == '-') && (q[-1] == 'e' || q[-1] == 'E'))) { if (*q == '.') dot = true; q++; }
      s.assign(p, q); p = q;
      if (*p == ':') { p++; k = T_LABELDEF; return; }
      k = T_NUM; return;
    }
    if (isalpha((unsigned char)c) || c == '_' || c == '$' || c == '.') {
      if (c == '.' && p[1] == '.' && p[2] == '.') { p += 3; s = "..."; k = T_P; return; }
      const char *q = p; while (idc(*q)) q++;
      s.assign(p, q); p = q;
      if (*p == ':') { p++; k = T_LABELDEF; return; }
      k = T_WORD; return;
    }
    k = T_P; s.assign(1, c); p++;
  }
  bool is(const char *x) const { return (k == T_P || k == T_WORD) && s == x; }
  void eat(const char *x) { if (!is(x)) die("parse: expected '%s' got '%s' near: %.120s", x, s.c_str(), start); next(); }
  bool opt(const char *x) { if (is(x)) { next(); return true; } return false; }
  void skipParens() { // at '('
    int d = 0;
    do { if (is("(")) d++; else if (is(")")) d--; next(); } while (d > 0 && k != T_EOF);
  }
};
static bool isTypeTok(Lex &L) {
  if (L.k == T_P) return L.s == "{" || L.s == "<" || L.s == "[";
  if (L.k != T_WORD) return false;
  const std::string &s = L.s;
  if (s == "ptr" || s == "void" || s == "float" || s == "double" || s == "label" || s == "metadata" || s == "token" || s == "half" || s == "fp128") return true;
  if (s[0] == 'i' && s.size() > 1) { for (size_t i = 1; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) return false; return true; }
  return false;
}
static Ty *parseTy(Lex &L) {
  if (L.k == T_WORD) {
    std::string s = L.s; L.next();
    if (s == "ptr") { if (L.is("addrspace")) { L.next(); L.skipParens(); } return tPtr; }
    if (s == "void") return tVoid;
    if (s == "float") return tF;
    if (s == "double") return tD;
    if (s == "label") return tLabel;
    if (s == "metadata" || s == "token") return tMeta;
    if (s[0] == 'i') return intTy(atoi(s.c_str() + 1));
    die("type %s", s.c_str());
  }
  if (L.k != T_P) die("type? %.80s", L.start);
  const char *b = L.start;
  auto memo = [&](Ty *t) { return t; };
  if (L.is("[")) {
    L.next(); u64 n = strtoull(L.s.c_str(), 0, 10); L.next(); L.eat("x");
    Ty *e = parseTy(L); 
    if (!L.is("]")) die("array type %.60s", b);
    L.next();
    std::string key = "A" + std::to_string(n) + "_" + std::to_string((u64)e);
    Ty *&t = tyTab[key];
    if (!t) { t = mkT(Ty::ARRAY, 0, n * e->size, e->align); t->n = n; t->el = e; }
    return memo(t);
  }
  bool packed = false;
  if (L.is("<")) {
    L.next();
    if (L.is("{")) packed = true;
    else {
      u64 n = strtoull(L.s.c_str(), 0, 10); L.next(); L.eat("x"); Ty *e = parseTy(L); L.eat(">");
      std::string key = "V" + std::to_string(n) + "_" + std::to_string((u64)e);
      Ty *&t = tyTab[key];
      if (!t) { t = mkT(Ty::VEC, 0, e->w == 1 ? (n + 7) / 8 : n * e->size, 16); t->n = n; t->el = e; }
      return memo(t);
    }
  }
  L.eat("{");
  std::vector<Ty *> fs; std::string key = packed ? "P" : "S";
  while (!L.is("}")) { Ty *e = parseTy(L); fs.push_back(e); key += "_" + std::to_string((u64)e); if (!L.opt(",")) break; }
  L.eat("}");
  if (packed) L.eat(">");
  Ty *&t = tyTab[key];
  if (!t) {
    t = mkT(Ty::STRUCT, 0, 0, 1); t->fs = fs; u64 o = 0;
    for (Ty *f : fs) { u64 al = packed ? 1 : f->align; o = (o + al - 1) / al * al; t->off.push_back(o); o += f->size; if (al > t->align) t->align = al; }
    t->size = (o + t->align - 1) / t->align * t->align;
  }
  return t;
}
static bool isValTok(Lex &L) {
  switch (L.k) {
  case T_REG: case T_GLOB: case T_NUM: case T_CSTR: case T_META: return true;
  case T_P: return L.s == "{" || L.s == "<" || L.s == "[";
  case T_WORD: {
    static const char *v[] = {"true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr", "ptrtoint", "ptrtoaddr", "add", "sub", "xor", "trunc", "asm", "splat", "bitcast", "mul", "shl", "dso_local_equivalent", "no_cfi"};
    for (auto x : v) if (L.s == x) return true;
    return false;
  }
  default: return false;
  }
}
static u64 skipAttrs(Lex &L) { // returns byval size when present (unused)
  while (!isValTok(L) && L.k != T_EOF && !L.is(",") && !L.is(")")) {
    if (L.k == T_WORD && L.s == "align") { L.next(); if (L.k == T_NUM) L.next(); else if (L.is("(")) L.skipParens(); continue; }
    if (L.k == T_WORD || L.k == T_ATTR || L.k == T_STR) { L.next(); if (L.is("=")) { L.next(); L.next(); } if (L.is("(")) L.skipParens(); continue; }
    die("attrs near %.100s", L.start);
  }
  return 0;
}
struct FCtx { Fn *f; std::unordered_map<std::string, int> regs; std::unordered_map<std::string, int> blocks; };
static Val undefVal() { Val v; v.c = 0; return v; }
static Val cval(u128 x, unsigned w) {
  Val v; x &= maskw(w);
  if (w <= 64) v.c = (u64)x; else v.e = mkConst(x, w);
  return v;
}
static int slotFor(FCtx *c, const std::string &name, u32 n) {
  auto it = c->regs.find(name);
  if (it != c->regs.end()) return it->second;
  int s = c->f->nslots; c->f->nslots += n; c->regs.emplace(name, s);
  return s;
}
static Opnd parseVal(Lex &L, Ty *t, FCtx *c);
static u128 parseInt(const std::string &s) {
  bool neg = false; size_t i = 0; u128 r = 0;
  if (s[0] == '-') { neg = true; i = 1; }
  if (s.compare(i, 2, "0x") == 0 || s.compare(i, 3, "u0x") == 0 || s.compare(i, 3, "s0x") == 0) {
    i = s.find('x') + 1; for (; i < s.size(); i++) r = r * 16 + (isdigit((unsigned char)s[i]) ? s[i] - '0' : (tolower(s[i]) - 'a' + 10));
  } else for (; i < s.size(); i++) r = r * 10 + (s[i] - '0');
  return neg ? (u128)0 - r : r;
}
static u64 gepConst(Lex &L, FCtx *c) { // after 'getelementptr' keyword
  while (L.k == T_WORD && !isTypeTok(L)) { L.next(); if (L.is("(") && L.s == "inrange") L.skipParens(); }
  L.eat("(");
  Ty *t = parseTy(L); L.eat(",");
  Ty *pt = parseTy(L); Opnd b = parseVal(L, pt, c);
  u64 addr = b.v.c; bool first = true; Ty *cur = t;
  while (L.opt(",")) {
    if (L.is("inrange")) L.next();
    Ty *it = parseTy(L); Opnd o = parseVal(L, it, c);
    i64 ix = sx64(o.v.c, it->w);
    if (first) { addr += ix * t->size; first = false; }
    else if (cur->k == Ty::STRUCT) { addr += cur->off[ix]; cur = cur->fs[ix]; }
    else { addr += ix * cur->el->size; cur = cur->el; }
  }
  L.eat(")");
  return addr;
}
static u64 symAddr(const std::string &n) {
  auto f = M.fns.find(n); if (f != M.fns.end()) return f->second->addr;
  auto g = M.globals.find(n); if (g != M.globals.end()) return g->second->addr;
  die("unknown global @%s", n.c_str());
}
static void flattenTo(std::vector<Val> &out, const Opnd &o) { if (o.ty->scalar()) out.push_back(o.v); else out.insert(out.end(), o.agg.begin(), o.agg.end()); }
static Opnd parseVal(Lex &L, Ty *t, FCtx *c) {
  Opnd o; o.ty = t; o.w = t->w; o.n = t->scalar() ? 1 : t->lv().size();
  switch (L.k) {
  case T_REG: {
    if (t->k == Ty::LABEL) { o.slot = -2; L.next(); return o; }
    o.slot = slotFor(c, L.s, o.n); L.next(); return o; }
  case T_GLOB: o.v.c = symAddr(L.s); L.next(); return o;
  case T_META: { L.next(); if (L.is("{") || L.is("(")) { int d = 0; do { if (L.is("{") || L.is("(")) d++; if (L.is("}") || L.is(")")) d--; L.next(); } while (d > 0); } return o; }
  case T_NUM:
    if (t->k == Ty::FLT) {
      double d; u64 bits; bool raw = false;
      if (L.s.compare(0, 2, "0x") == 0) { bits = strtoull(L.s.c_str(), 0, 16); raw = true; }
      else if (L.s == "+inf") d = INFINITY; else if (L.s == "-inf") d = -INFINITY; else if (L.s == "+qnan" || L.s == "+nan") d = NAN; else if (L.s == "-qnan" || L.s == "-nan") d = -NAN;
      else d = strtod(L.s.c_str(), 0);
      if (raw) memcpy(&d, &bits, 8);
      if (t->w == 64) memcpy(&o.v.c, &d, 8); else { float f = (float)d; u32 x; memcpy(&x, &f, 4); o.v.c = x; }
    } else o.v = cval(parseInt(L.s), t->w);
    L.next(); return o;
  case T_CSTR: {
    const std::string &s = L.s;
    for (size_t i = 0; i < s.size(); i++) {
      u8 ch = s[i];
      if (ch == '\\') { if (s[i + 1] == '\\') { i++; } else { ch = (u8)strtoul(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } }
      Val v; v.c = ch; o.agg.push_back(v);
    }
    L.next(); return o; }
  case T_P: {
    bool angle = L.is("<");
    if (angle) { L.next(); }
    const char *close = nullptr;
    if (L.is("{")) { close = "}"; L.next(); } else if (!angle && L.is("[")) { close = "]"; L.next(); } else close = ">";
    while (!L.is(close)) { Ty *et = parseTy(L); skipAttrs(L); Opnd e = parseVal(L, et, c); flattenTo(o.agg, e); if (!L.opt(",")) break; }
    L.eat(close);
    if (angle && close[0] == '}') L.eat(">");
    return o; }
  case T_WORD: {
    std::string s = L.s;
    if (s == "true") { L.next(); o.v.c = 1; return o; }
    if (s == "false" || s == "null" || s == "zeroinitializer" || s == "none" || s == "undef" || s == "poison") {
      L.next();
      if (!t->scalar()) { for (auto &l : t->lv()) { o.agg.push_back(cval(0, l.w)); } }
      else if (t->w > 64) o.v = cval(0, t->w);
      (void)undefVal; return o;
    }
    if (s == "splat") { L.next(); L.eat("("); Ty *et = parseTy(L); Opnd e = parseVal(L, et, c); L.eat(")"); for (u64 i = 0; i < t->n; i++) flattenTo(o.agg, e); return o; }
    if (s == "getelementptr") { L.next(); o.v.c = gepConst(L, c); return o; }
    if (s == "inttoptr" || s == "ptrtoint" || s == "ptrtoaddr" || s == "trunc" || s == "bitcast") {
      L.next(); while (L.k == T_WORD && !isTypeTok(L)) L.next(); L.eat("("); Ty *et = parseTy(L); Opnd e = parseVal(L, et, c); L.eat("to"); Ty *rt = parseTy(L); L.eat(")"); o.v.c = e.v.c & mask64(rt->w ? rt->w : 64); return o; }
    if (s == "add" || s == "sub" || s == "xor" || s == "mul" || s == "shl") {
      L.next(); while (L.k == T_WORD && !isTypeTok(L)) L.next(); L.eat("("); Ty *et = parseTy(L); Opnd e = parseVal(L, et, c); L.eat(","); Ty *ft = parseTy(L); Opnd f = parseVal(L, ft, c); L.eat(")");
      o.v.c = s == "add" ? e.v.c + f.v.c : s == "sub" ? e.v.c - f.v.c : s == "mul" ? e.v.c * f.v.c : s == "shl" ? e.v.c << f.v.c : e.v.c ^ f.v.c; o.v.c &= mask64(et->w); return o; }
    if (s.compare(0, 3, "f0x") == 0 && t->k == Ty::FLT) { // bits of the type's own width
      std::string x = s.substr(3);
      if (t->w == 32 && x.size() == 16) { u64 b = strtoull(x.c_str(), 0, 16); double d; memcpy(&d, &b, 8); float fl = (float)d; u32 y; memcpy(&y, &fl, 4); o.v.c = y; }
      else o.v.c = strtoull(x.c_str(), 0, 16);
      L.next(); return o;
    }
    die("value '%s' near %.100s", s.c_str(), L.start);
  }
  default: die("value near %.100s", L.start);
  }
}
static Opnd typedVal(Lex &L, FCtx *c) { Ty *t = parseTy(L); skipAttrs(L); return parseVal(L, t, c); }

void Module::load(const std::string &path) {
  FILE *f = fopen(path.c_str(), "rb"); if (!f) die("cannot open %s", path.c_str());
  fseek(f, 0, SEEK_END); long n = ftell(f); fseek(f, 0, SEEK_SET); text.resize(n); if (fread(&text[0], 1, n, f) != (size_t)n) die("read"); fclose(f);
  const char *p = text.c_str();
  auto nameAt = [&](const char *q) { // at '@'
    q++; std::string s; if (*q == '"') { q++; while (*q != '"') s += *q++; } else while (Lex::idc(*q)) s += *q++; return s; };
  while (*p) {
    const char *e = strchr(p, '\n'); if (!e) e = p + strlen(p);
    if (*p == '@') {
      Global *g = new Global(); g->name = nameAt(p); g->addr = GBASE + GSTEP * gByIdx.size(); g->init = p; gByIdx.push_back(g); globals[g->name] = g;
    } else if (!strncmp(p, "define ", 7) || !strncmp(p, "declare ", 8)) {
      const char *at = p; while (*at != '@') at++;
      Fn *fn = new Fn(); fn->name = nameAt(at); fn->addr = FBASE + 16 * fnByIdx.size(); if (p[2] == 'f') fn->body = p;
      fn->panicky = fn->name.find("4core9panicking") != std::string::npos || fn->name.find("begin_unwind") != std::string::npos || fn->name.find("rust_panic") != std::string::npos || fn->name.find("begin_panic") != std::string::npos;
      fnByIdx.push_back(fn); fns[fn->name] = fn;
      if (fn->body) { const char *q = strstr(p, "\n}\n"); if (q) e = q + 2; }
    }
    p = *e ? e + 1 : e;
  }
  for (Global *g : gByIdx) { // type, size
    Lex L(g->init); L.next(); L.eat("=");
    bool ok = false;
    while (L.k != T_EOF) {
      if (L.is("constant")) { g->ro = true; L.next(); ok = true; break; }
      if (L.is("global")) { L.next(); ok = true; break; }
      if (L.is("alias") || L.is("ifunc")) die("alias %s", g->name.c_str());
      if (L.is("external") || L.is("extern_weak")) g->ext = true;
      L.next(); if (L.is("(")) L.skipParens();
    }
    if (!ok) die("global %s", g->name.c_str());
    g->ty = parseTy(L); g->size = g->ty->size; g->init = g->ext ? nullptr : L.start;
    if (g->size > GSTEP / 2) die("global %s too large", g->name.c_str());
  }
}
void Module::initBytes(Global *g, std::vector<u8> &out) {
  out.assign(g->size, 0);
  if (!g->init) return;
  Lex L(g->init); Opnd o = parseVal(L, g->ty, nullptr);
  const auto &lv = g->ty->lv();
  auto put = [&](u64 off, unsigned w, const Val &v) { u128 x = v.e ? cv(v.e) : v.c; for (unsigned i = 0; i < (w + 7) / 8; i++) out[off + i] = (u8)(x >> (8 * i)); };
  if (g->ty->scalar()) put(0, g->ty->w, o.v);
  else { if (o.agg.size() != lv.size()) die("init of %s: %zu leaves, want %zu", g->name.c_str(), o.agg.size(), lv.size()); for (size_t i = 0; i < lv.size(); i++) put(lv[i].off, lv[i].w, o.agg[i]); }
}
static void gepIndices(Lex &L, Inst &in, Ty *t, FCtx *c) {
  bool first = true; Ty *cur = t;
  while (L.is(",")) {
    Lex save = L; L.next();
    if (L.k == T_META) { L = save; break; }
    Opnd o = typedVal(L, c);
    u64 scale; 
    if (!first && cur->k == Ty::STRUCT) { in.off += cur->off[o.v.c]; cur = cur->fs[o.v.c]; continue; }
    if (first) { scale = t->size; first = false; } else { scale = cur->el->size; cur = cur->el; }
    if (o.slot < 0) in.off += scale * (u64)sx64(o.v.c, o.w);
    else { in.a.push_back(o); in.idx.push_back(scale); }
  }
}
static const std::map<std::string, int> binNames = {{"add", B_ADD}, {"sub", B_SUB}, {"mul", B_MUL}, {"udiv", B_UDIV}, {"sdiv", B_SDIV}, {"urem", B_UREM}, {"srem", B_SREM}, {"and", B_AND}, {"or", B_OR}, {"xor", B_XOR}, {"shl", B_SHL}, {"lshr", B_LSHR}, {"ashr", B_ASHR}, {"fadd", B_FADD}, {"fsub", B_FSUB}, {"fmul", B_FMUL}, {"fdiv", B_FDIV}, {"frem", B_FREM}};
static const std::map<std::string, int> castNames = {{"zext", K_ZEXT}, {"sext", K_SEXT}, {"trunc", K_TRUNC}, {"ptrtoint", K_PTRTOINT}, {"ptrtoaddr", K_PTRTOINT}, {"inttoptr", K_INTTOPTR}, {"bitcast", K_BITCAST}, {"uitofp", K_UITOFP}, {"sitofp", K_SITOFP}, {"fptoui", K_FPTOUI}, {"fptosi", K_FPTOSI}, {"fpext", K_FPEXT}, {"fptrunc", K_FPTRUNC}};
static const std::map<std::string, int> icmpNames = {{"eq", C_EQ}, {"ne", C_NE}, {"ult", C_ULT}, {"ule", C_ULE}, {"ugt", C_UGT}, {"uge", C_UGE}, {"slt", C_SLT}, {"sle", C_SLE}, {"sgt", C_SGT}, {"sge", C_SGE}};
static const std::map<std::string, int> fcmpNames = {{"oeq", F_OEQ}, {"ogt", F_OGT}, {"oge", F_OGE}, {"olt", F_OLT}, {"ole", F_OLE}, {"one", F_ONE}, {"ord", F_ORD}, {"uno", F_UNO}, {"ueq", F_UEQ}, {"ugt", F_UGT}, {"uge", F_UGE}, {"ult", F_ULT}, {"ule", F_ULE}, {"une", F_UNE}, {"true", F_TRUE}, {"false", F_FALSE}};
static const std::map<std::string, int> rmwNames = {{"xchg", 0}, {"add", 1}, {"sub", 2}, {"and", 3}, {"or", 4}, {"xor", 5}, {"max", 6}, {"min", 7}, {"umax", 8}, {"umin", 9}, {"nand", 10}};

void Module::parseBody(Fn *f) {
  f->parsed = true;
  Lex L(f->body);
  FCtx C; C.f = f;
  L.next(); // define
  while (!isTypeTok(L)) { L.next(); if (L.is("(")) L.skipParens(); else if (L.k == T_NUM) L.next(); }
  f->ret = parseTy(L);
  if (L.k != T_GLOB) die("define %.80s", L.start);
  L.next(); L.eat("(");
  int anon = 0;
  while (!L.is(")")) {
    if (L.is("...")) { L.next(); break; }
    Ty *t = parseTy(L); 
    while (L.k != T_REG && !L.is(",") && !L.is(")")) { if (L.is("(")) L.skipParens(); else L.next(); }
    std::string nm = std::to_string(anon);
    if (L.k == T_REG) { nm = L.s; L.next(); }
    anon++;
    f->argTy.push_back(t); f->argSlot.push_back(slotFor(&C, nm, t->scalar() ? 1 : t->lv().size()));
    if (!L.opt(",")) break;
  }
  L.eat(")");
  while (!L.is("{")) { L.next(); if (L.is("(")) L.skipParens(); }
  L.next();
  auto block = [&](const std::string &n) { auto it = C.blocks.find(n); if (it != C.blocks.end()) return it->second; int i = f->blocks.size(); f->blocks.push_back({n, ~0u}); C.blocks[n] = i; return i; };
  auto label = [&]() { if (L.k != T_REG) die("label %.60s", L.start); int b = block(L.s); L.next(); return b; };
  if (L.k != T_LABELDEF) f->blocks[block(std::to_string(anon))].first = 0;
  while (!L.is("}")) {
    if (L.k == T_LABELDEF) { f->blocks[block(L.s)].first = f->code.size(); L.next(); continue; }
    Inst in; in.line = L.start - text.c_str();
    std::string dn; bool hasDst = false;
    if (L.k == T_REG) { dn = L.s; hasDst = true; L.next(); L.eat("="); }
    if (L.k != T_WORD) die("instruction near %.100s in %s", L.start, f->name.c_str());
    std::string op = L.s; L.next();
    auto setDst = [&](Ty *t) { in.ty = t; if (hasDst) { in.ndst = t->scalar() ? 1 : t->lv().size(); in.dst = slotFor(&C, dn, in.ndst); } };
    auto flags = [&]() { while (L.k == T_WORD && !isTypeTok(L)) { L.next(); if (L.is("(")) L.skipParens(); } };
    std::map<std::string, int>::const_iterator it;
    if (op == "tail" || op == "musttail" || op == "notail") { op = L.s; L.next(); }
    if (op == "ret") { in.op = O_RET; Ty *t = parseTy(L); in.ty = t; if (t->k != Ty::VOID) in.a.push_back(parseVal(L, t, &C)); }
    else if (op == "br") {
      Ty *t = parseTy(L);
      if (t->k == Ty::LABEL) { in.op = O_BR; in.tgt.push_back(label()); }
      else { in.op = O_CBR; in.a.push_back(parseVal(L, t, &C)); L.eat(","); parseTy(L); in.tgt.push_back(label()); L.eat(","); parseTy(L); in.tgt.push_back(label()); }
    } else if (op == "switch") {
      in.op = O_SWITCH; in.a.push_back(typedVal(L, &C)); L.eat(","); parseTy(L); in.tgt.push_back(label()); L.eat("[");
      while (!L.is("]")) { Opnd o = typedVal(L, &C); L.eat(","); parseTy(L); in.idx.push_back(o.v.e ? (u64)cv(o.v.e) : o.v.c); in.tgt.push_back(label()); }
      L.next();
    } else if (op == "unreachable") in.op = O_UNREACHABLE;
    else if (op == "call" || op == "invoke") {
      in.op = O_CALL;
      while (!isTypeTok(L)) { L.next(); if (L.is("(")) L.skipParens(); else if (L.k == T_NUM) L.next(); }
      Ty *rt = parseTy(L);
      if (L.is("(")) L.skipParens();
      bool isAsm = false; Opnd target;
      if (L.is("asm")) { isAsm = true; L.next(); while (!(L.k == T_STR)) L.next(); L.next(); L.eat(","); L.next(); }
      else target = parseVal(L, tPtr, &C);
      L.eat("(");
      std::vector<Opnd> args;
      while (!L.is(")")) { Ty *t = parseTy(L); if (t->k == Ty::META) { while (!L.is(",") && !L.is(")")) { if (L.is("(")) L.skipParens(); else L.next(); } Opnd o; o.ty = t; args.push_back(o); } else { skipAttrs(L); args.push_back(parseVal(L, t, &C)); } if (!L.opt(",")) break; }
      L.eat(")");
      setDst(rt);
      in.a = std::move(args);
      if (isAsm) { in.op = O_NOP; if (hasDst) die("asm with result in %s", f->name.c_str()); }
      else if (target.slot < 0) { u64 ix = (target.v.c - FBASE) / 16; if (target.v.c < FBASE || ix >= fnByIdx.size()) die("call target %lx", target.v.c); in.callee = fnByIdx[ix]; }
      else { in.a.push_back(target); }
      if (op == "invoke") { while (!L.is("to")) L.next(); L.next(); parseTy(L); in.tgt.push_back(label()); L.eat("unwind"); parseTy(L); in.tgt.push_back(label()); }
    } else if ((it = binNames.find(op)) != binNames.end()) {
      in.op = O_BIN; in.sub = it->second; flags(); Ty *t = parseTy(L); in.a.push_back(parseVal(L, t, &C)); L.eat(","); in.a.push_back(parseVal(L, t, &C)); setDst(t);
    } else if (op == "icmp" || op == "fcmp") {
      in.op = op == "icmp" ? O_ICMP : O_FCMP;
      const auto &tab = op == "icmp" ? icmpNames : fcmpNames;
      while (!tab.count(L.s)) L.next();
      in.sub = tab.at(L.s); L.next(); Ty *t = parseTy(L); in.a.push_back(parseVal(L, t, &C)); L.eat(","); in.a.push_back(parseVal(L, t, &C));
      if (t->k == Ty::VEC) { std::string key = "V" + std::to_string(t->n) + "_" + std::to_string((u64)intTy(1)); Ty *&v = tyTab[key]; if (!v) { v = mkT(Ty::VEC, 0, (t->n + 7) / 8, 16); v->n = t->n; v->el = intTy(1); } setDst(v); }
      else setDst(intTy(1));
    } else if (op == "select") { in.op = O_SELECT; flags(); in.a.push_back(typedVal(L, &C)); L.eat(","); in.a.push_back(typedVal(L, &C)); L.eat(","); in.a.push_back(typedVal(L, &C)); setDst(in.a[1].ty); }
    else if (op == "load") { in.op = O_LOAD; flags(); Ty *t = parseTy(L); L.eat(","); in.a.push_back(typedVal(L, &C)); setDst(t); }
    else if (op == "store") { in.op = O_STORE; flags(); in.a.push_back(typedVal(L, &C)); L.eat(","); in.a.push_back(typedVal(L, &C)); }
    else if (op == "getelementptr") { in.op = O_GEP; flags(); Ty *t = parseTy(L); L.eat(","); in.a.push_back(typedVal(L, &C)); gepIndices(L, in, t, &C); setDst(tPtr); }
    else if (op == "alloca") {
      in.op = O_ALLOCA; flags(); Ty *t = parseTy(L); in.off = t->size; u64 al = 16; in.ty = t;
      while (L.is(",")) { L.next(); if (L.is("align")) { L.next(); al = strtoull(L.s.c_str(), 0, 10); L.next(); } else if (L.k == T_META) { L.next(); L.next(); } else { Opnd o = typedVal(L, &C); if (o.slot >= 0) die("dynamic alloca"); in.off *= o.v.c; } }
      in.idx.push_back(al); setDst(tPtr);
    } else if ((it = castNames.find(op)) != castNames.end()) { in.op = O_CAST; in.sub = it->second; flags(); in.a.push_back(typedVal(L, &C)); L.eat("to"); setDst(parseTy(L)); }
    else if (op == "phi") {
      in.op = O_PHI; flags(); Ty *t = parseTy(L); setDst(t);
      do { L.eat("["); in.a.push_back(parseVal(L, t, &C)); L.eat(","); in.tgt.push_back(label()); L.eat("]"); Lex s = L; if (!L.is(",")) break; L.next(); if (L.k == T_META) { L = s; break; } } while (true);
    } else if (op == "extractvalue" || op == "insertvalue") {
      bool ins = op[0] == 'i'; in.op = ins ? O_INSERTV : O_EXTRACTV; in.a.push_back(typedVal(L, &C)); L.eat(",");
      if (ins) { in.a.push_back(typedVal(L, &C)); L.eat(","); }
      Ty *cur = in.a[0].ty; u64 lf = 0;
      for (;;) {
        u64 ix = strtoull(L.s.c_str(), 0, 10); L.next();
        if (cur->k == Ty::STRUCT) { for (u64 i = 0; i < ix; i++) lf += cur->fs[i]->lv().size(); cur = cur->fs[ix]; } else { lf += ix * cur->el->lv().size(); cur = cur->el; }
        Lex s = L; if (!L.is(",")) break; L.next(); if (L.k == T_META) { L = s; break; }
      }
      in.idx.push_back(lf); setDst(ins ? in.a[0].ty : cur);
    } else if (op == "freeze") { in.op = O_FREEZE; in.a.push_back(typedVal(L, &C)); setDst(in.a[0].ty); }
    else if (op == "fneg") { in.op = O_FNEG; flags(); in.a.push_back(typedVal(L, &C)); setDst(in.a[0].ty); }
    else if (op == "fence") { in.op = O_NOP; }
    else if (op == "atomicrmw") { in.op = O_RMW; if (L.is("volatile")) L.next(); in.sub = rmwNames.at(L.s); L.next(); in.a.push_back(typedVal(L, &C)); L.eat(","); in.a.push_back(typedVal(L, &C)); setDst(in.a[1].ty); }
    else if (op == "cmpxchg") {
      in.op = O_CMPXCHG; while (!isTypeTok(L)) L.next(); in.a.push_back(typedVal(L, &C)); L.eat(","); in.a.push_back(typedVal(L, &C)); L.eat(","); in.a.push_back(typedVal(L, &C));
      Ty *t = in.a[1].ty; std::string key = "S_" + std::to_string((u64)t) + "_" + std::to_string((u64)intTy(1)); Ty *&v = tyTab[key];
      if (!v) { v = mkT(Ty::STRUCT, 0, 0, t->align); v->fs = {t, intTy(1)}; v->off = {0, t->size}; v->size = t->size + t->align; }
      setDst(v);
    } else if (op == "shufflevector") {
      in.op = O_SHUFFLE; in.a.push_back(typedVal(L, &C)); L.eat(","); in.a.push_back(typedVal(L, &C)); L.eat(","); in.a.push_back(typedVal(L, &C));
      Ty *e = in.a[0].ty->el; u64 n = in.a[2].ty->n; std::string key = "V" + std::to_string(n) + "_" + std::to_string((u64)e); Ty *&t = tyTab[key];
      if (!t) { t = mkT(Ty::VEC, 0, e->w == 1 ? (n + 7) / 8 : n * e->size, 16); t->n = n; t->el = e; }
      setDst(t);
    } else if (op == "insertelement") { in.op = O_INSEL; in.a.push_back(typedVal(L, &C)); L.eat(","); in.a.push_back(typedVal(L, &C)); L.eat(","); in.a.push_back(typedVal(L, &C)); setDst(in.a[0].ty); }
    else if (op == "extractelement") { in.op = O_EXTEL; in.a.push_back(typedVal(L, &C)); L.eat(","); in.a.push_back(typedVal(L, &C)); setDst(in.a[0].ty->el); }
    else if (op == "landingpad") { in.op = O_LANDINGPAD; setDst(parseTy(L)); while (true) { if (L.nl && !(L.is("cleanup") || L.is("catch") || L.is("filter"))) break; L.next(); } }
    else if (op == "resume") { in.op = O_RESUME; in.a.push_back(typedVal(L, &C)); }
    else die("opcode %s in %s", op.c_str(), f->name.c_str());
    f->code.push_back(std::move(in));
    // rest of the line: attributes and metadata
    while (!L.nl && !L.is("}")) { if (L.k == T_EOF) break; L.next(); }
    if (L.is("}") && !L.nl) { while (!L.nl && L.k != T_EOF) L.next(); }
  }
  for (auto &b : f->blocks) if (b.first == ~0u) die("undefined block %s in %s", b.name.c_str(), f->name.c_str());
}
