// Calls: runtime interface (sx_*), LLVM intrinsics, the few libc functions, ordinary functions.
enum { F_ORD_ = 1, X_ALLOC, X_FREE, X_SYM, X_CHECK, X_ASSUME, X_REACH, X_CHOOSE, X_CONC, X_IDENT, X_ISINIT, X_ARG, X_FAIL, X_CLOCKGET, X_CLOCKSET, X_LOG, X_EQ, X_ISCONC, X_UNDEF, X_ITE, X_LAW,
  L_MEMCPY, L_MEMMOVE, L_MEMSET, L_NOP, L_ABS, L_BITREV, L_BSWAP, L_CTLZ, L_CTTZ, L_CTPOP, L_FSHL, L_FSHR, L_FALSE, L_POWI, L_OVF, L_SCMP, L_UCMP, L_MINMAX, L_SAT, L_TLS, L_ASSUME, L_TRAP, L_LIFESTART, L_EXPECT, L_FABS,
  C_BCMP, C_STRLEN, C_CLOCK, C_ZERO, C_ERRNO, C_ABORT, C_WRITE, C_GETENV, F_PANIC, F_BAD };
static int classify(Fn *f) {
  const std::string &n = f->name;
  auto is = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  static const std::map<std::string, int> rt = {{"sx_alloc", X_ALLOC}, {"sx_free", X_FREE}, {"sx_symbolic", X_SYM}, {"sx_check", X_CHECK}, {"sx_assume", X_ASSUME}, {"sx_reach", X_REACH}, {"sx_choose", X_CHOOSE}, {"sx_concretize", X_CONC}, {"sx_identical", X_IDENT}, {"sx_is_init", X_ISINIT}, {"sx_arg", X_ARG}, {"sx_fail", X_FAIL}, {"sx_clock_get", X_CLOCKGET}, {"sx_clock_set", X_CLOCKSET}, {"sx_log", X_LOG}, {"sx_eq", X_EQ}, {"sx_is_concrete", X_ISCONC}, {"sx_ite", X_ITE}, {"sx_law", X_LAW},
    {"bcmp", C_BCMP}, {"memcmp", C_BCMP}, {"strlen", C_STRLEN}, {"clock_gettime", C_CLOCK}, {"abort", C_ABORT}, {"__errno_location", C_ERRNO}, {"write", C_WRITE}, {"writev", C_WRITE}, {"getenv", C_GETENV}, {"pthread_key_create", C_ZERO}, {"pthread_setspecific", C_ZERO}, {"__cxa_thread_atexit_impl", C_ZERO}};
  auto it = rt.find(n);
  if (it != rt.end()) return it->second;
  if (f->panicky) return F_PANIC;
  if (f->body) return F_ORD_;
  if (is("llvm.")) {
    if (is("llvm.memcpy")) return L_MEMCPY;
    if (is("llvm.memmove")) return L_MEMMOVE;
    if (is("llvm.memset")) return L_MEMSET;
    if (is("llvm.lifetime.start")) return L_LIFESTART;
    if (is("llvm.lifetime") || is("llvm.experimental.noalias") || is("llvm.dbg") || is("llvm.x86.sse2.pause") || is("llvm.prefetch") || is("llvm.donothing") || is("llvm.va_") || is("llvm.invariant")) return L_NOP;
    if (is("llvm.abs.")) return L_ABS;
    if (is("llvm.bitreverse")) return L_BITREV;
    if (is("llvm.bswap")) return L_BSWAP;
    if (is("llvm.ctlz")) return L_CTLZ;
    if (is("llvm.cttz")) return L_CTTZ;
    if (is("llvm.ctpop")) return L_CTPOP;
    if (is("llvm.fshl")) return L_FSHL;
    if (is("llvm.fshr")) return L_FSHR;
    if (is("llvm.is.constant")) return L_FALSE;
    if (is("llvm.powi")) return L_POWI;
    if (n.find(".with.overflow") != std::string::npos) return L_OVF;
    if (is("llvm.scmp")) return L_SCMP;
    if (is("llvm.ucmp")) return L_UCMP;
    if (is("llvm.umax") || is("llvm.umin") || is("llvm.smax") || is("llvm.smin")) return L_MINMAX;
    if (is("llvm.uadd.sat") || is("llvm.usub.sat") || is("llvm.sadd.sat") || is("llvm.ssub.sat")) return L_SAT;
    if (is("llvm.threadlocal.address")) return L_TLS;
    if (is("llvm.assume")) return L_ASSUME;
    if (is("llvm.trap") || is("llvm.ubsantrap")) return L_TRAP;
    if (is("llvm.expect")) return L_EXPECT;
    if (is("llvm.fabs")) return L_FABS;
  }
  return F_BAD;
}
static Val cst(u64 v) { Val r; r.c = v; return r; }
static Expr *ctz(Expr *x, bool lead) { // count of leading / trailing zeros
  unsigned w = x->w; Expr *r = mkConst(w, w);
  if (lead) for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r);
  else for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r);
  return r;
}
static void panicMsg(State &s, const Inst &in, Fn *f) {
  std::string loc, msg = f->name;
  // a trailing &Location argument: { file ptr, len, line, col }
  for (size_t i = in.a.size(); i-- > 0;) {
    if (!in.a[i].ty || in.a[i].ty->k != Ty::PTR) continue;
    Val p = get(s, in.a[i]);
    if (p.e) continue;
    Obj *o = findR(s, p.c);
    if (!o || !o->ro || o->size != 24 || p.c != o->base) continue;
    u64 fp = loadN(s, p.c, 64).c, fl = loadN(s, p.c + 8, 64).c, ln = loadN(s, p.c + 16, 32).c;
    Obj *q = findR(s, fp);
    if (q && fl < 300 && fl <= q->size) { loc = strAt(s, fp, fl) + ":" + std::to_string(ln); break; }
  }
  static const char *kinds[] = {"panic_bounds_check", "unwrap_failed", "expect_failed", "panic_const_div_by_zero", "panic_const_rem_by_zero", "panic_const", "slice_index_fail", "panic_fmt", "panic_nounwind", "panic_display", "assert_failed"};
  for (auto k : kinds) if (msg.find(k) != std::string::npos) { msg = k; break; }
  // line numbers do not identify a panic for reporting purposes, the file and the enclosing function do
  report(s, "panic", msg + (loc.empty() ? "" : " at " + loc));
  throw PathEnd();
}
static void doCall(State &s, const Inst &in) {
  Fn *f = in.callee;
  size_t na = in.a.size();
  if (!f) {
    Val t = get(s, in.a.back()); na--;
    u64 a = concretize(s, t, 64);
    if (a < FBASE || (a - FBASE) / 16 >= M.fnByIdx.size() || (a & 15)) { report(s, "memory", "call through an invalid function pointer"); throw PathEnd(); }
    f = M.fnByIdx[(a - FBASE) / 16];
  }
  if (!f->kind) f->kind = classify(f);
  int cblk = in.tgt.empty() ? -1 : in.tgt[0];
  if (f->kind == F_ORD_) {
    std::vector<Val> args; args.reserve(na);
    for (size_t i = 0; i < na; i++) for (u32 j = 0; j < in.a[i].n; j++) args.push_back(get(s, in.a[i], j));
    enter(s, f, args, in.dst, in.ndst, cblk);
    return;
  }
  auto arg = [&](size_t i) { return get(s, in.a[i]); };
  auto argC = [&](size_t i) { return concretize(s, get(s, in.a[i]), in.a[i].w); };
  unsigned w = in.ty && in.ty->scalar() ? in.ty->w : 0;
  auto ret = [&](const Val &v) { if (in.dst >= 0) put(s, in.dst, v); };
  switch (f->kind) {
  case F_PANIC: panicMsg(s, in, f); break;
  case F_BAD: die("call of unmodelled external %s from %s", f->name.c_str(), s.fr.back().f->name.c_str());
  case X_ALLOC: {
    u64 n = argC(0); 
    if (n > (64u << 20)) { report(s, "memory", "allocation of more than 64 MiB"); throw PathEnd(); }
    ret(cst(allocObj(s, n, KD_HEAP))); break; }
  case X_FREE: {
    u64 p = argC(0), n = argC(1);
    auto it = s.mem.find(p);
    if (it == s.mem.end() || it->second->kind != KD_HEAP) { report(s, "memory", "free of a pointer that is not a live allocation"); throw PathEnd(); }
    if (it->second->size != n) { report(s, "memory", "free with the wrong size"); throw PathEnd(); }
    s.mem.erase(it); s.last.reset(); break; }
  case X_SYM: { // (ptr, len, name, namelen)
    u64 p = argC(0), n = argC(1); std::string nm = strAt(s, argC(2), argC(3));
    int k = s.occ[nm]++;
    std::string base = nm + (k ? "#" + std::to_string(k) : "");
    if (n) wr(s, p, n);
    static std::unordered_map<std::string, Expr *> tab;
    StreamEnt se; se.name = base;
    for (u64 i = 0; i < n; i++) {
      std::string full = base + "[" + std::to_string(i) + "]";
      Expr *&e = tab[full]; if (!e) e = mkSym(full, false);
      Val v; v.e = e; se.bytes.push_back(v);
      Obj *o = wr(s, p + i, 1); putByte(o, p + i - o->base, v);
    }
    s.stream.push_back(se);
    break; }
  case X_CHOOSE: {
    u64 n = argC(0);
    if (n == 0) throw PathEnd();
    auto fix = [&](State &t, u64 v) {
      StreamEnt se; se.name = "choose"; for (int i = 0; i < 8; i++) se.bytes.push_back(cst((v >> (8 * i)) & 255));
      t.stream.push_back(se); put(t, in.dst, cst(v)); if (cblk >= 0) jump(t, cblk); else t.fr.back().ip++;
    };
    for (u64 i = n; i-- > 1;) { StateP o = clone(s); fix(*o, i); work.push_back(std::move(o)); }
    fix(s, 0);
    return; }
  case X_CHECK: { // (cond, msg, msglen)
    Val c = arg(0); nChecks++;
    if (c.e) c = fromE(subst(s, c.e));
    if (!c.e) { if (!(c.c & 1)) { report(s, "check", strAt(s, argC(1), argC(2))); throw PathEnd(); } break; }
    nChecksSym++;
    Expr *e = in.a[0].w == 1 ? c.e : mkNot(mkBin(EQ, c.e, mkConst(0, in.a[0].w)));
    if (e->undef) { report(s, "uninit", "a checked result depends on uninitialised memory"); throw PathEnd(); }
    std::vector<std::pair<u32, u8>> m;
    if (feasible(s, mkNot(e), &m)) {
      report(s, "check", strAt(s, argC(1), argC(2)), &m, mkNot(e));
      std::vector<std::pair<u32, u8>> m2;
      if (!feasible(s, e, &m2)) throw PathEnd();
      setModel(s, m2); addC(s, e);
    }
    break; }
  case X_FAIL: report(s, "check", strAt(s, argC(0), argC(1))); throw PathEnd();
  case X_ASSUME: {
    Val c = arg(0); if (c.e) c = fromE(subst(s, c.e));
    if (!c.e) { if (!(c.c & 1)) throw PathEnd(); break; }
    Expr *e = in.a[0].w == 1 ? c.e : mkNot(mkBin(EQ, c.e, mkConst(0, in.a[0].w)));
    if (!evalExpr(e, s.asg)) { std::vector<std::pair<u32, u8>> m; if (!feasible(s, e, &m)) throw PathEnd(); setModel(s, m); }
    addC(s, e); noteKnown(s, e, 1);
    break; }
  case X_LAW: {
    Val c = arg(0); if (c.e) c = fromE(subst(s, c.e));
    if (!c.e) { if (!(c.c & 1)) throw PathEnd(); break; }
    s.laws.push_back(in.a[0].w == 1 ? c.e : mkNot(mkBin(EQ, c.e, mkConst(0, in.a[0].w))));
    break; }
  case X_REACH: { u64 id = argC(0); reached[id]++; s.obs.push_back({"reach", cst(id)}); break; }
  case X_CONC: ret(cst(argC(0))); break;
  case X_IDENT: {
    u64 a = argC(0), b = argC(1), n = argC(2); bool r = true;
    for (u64 i = 0; i < n && r; i++) { Val x = byteAt(s, a + i), y = byteAt(s, b + i); r = x.e == y.e && (x.e || x.c == y.c); }
    ret(cst(r)); break; }
  case X_EQ: { u64 a = argC(0), b = argC(1), n = argC(2); Expr *e = memEq(s, a, b, n); ret(fromE(mkZext(e, w))); break; }
  case X_ISINIT: {
    u64 a = argC(0), n = argC(1); bool r = true;
    if (n) { Obj *o = rd(s, a, n); u64 off = a - o->base; for (u64 i = 0; i < n; i++) if (!o->st[off + i] || (o->st[off + i] == 2 && o->ex[off + i]->undef)) r = false; }
    ret(cst(r)); break; }
  case X_ISCONC: { u64 a = argC(0), n = argC(1); bool r = true; for (u64 i = 0; i < n; i++) if (byteAt(s, a + i).e) r = false; ret(cst(r)); break; }
  case X_ITE: { // (cond u8, a u64, b u64)
    Val c = arg(0); if (c.e) c = fromE(mkNot(mkBin(EQ, c.e, mkConst(0, in.a[0].w)))); ret(ite(c, arg(1), arg(2), w)); break; }
  case X_ARG: { u64 i = argC(0); ret(cst(i < entryArgs.size() ? entryArgs[i] : 0)); break; }
  case X_CLOCKGET: ret(s.clock); break;
  case X_CLOCKSET: s.clock = arg(0); break;
  case X_LOG: {
    std::string m = strAt(s, argC(0), argC(1)); Val v = arg(2);
    if (traceCalls) { if (v.e) fprintf(stderr, "LOG %s %s\n", m.c_str(), show(v.e, 8).c_str()); else fprintf(stderr, "LOG %s %lu (0x%lx)\n", m.c_str(), v.c, v.c); }
    s.obs.push_back({m, v});
    break; }
  case L_NOP: case L_EXPECT: if (in.dst >= 0) ret(arg(0)); break;
  case L_LIFESTART: {
    Val p = arg(in.a.size() > 1 ? 1 : 0);
    if (!p.e) { Obj *o = findW(s, p.c); if (o && o->kind == KD_STACK && o->base == p.c) std::fill(o->st.begin(), o->st.end(), 0); }
    break; }
  case L_MEMCPY: case L_MEMMOVE: {
    u64 n = argC(2); if (!n) break;
    u64 d = address(s, arg(0), n, true), a = address(s, arg(1), n, false);
    copyMem(s, d, a, n, f->kind == L_MEMMOVE); break; }
  case L_MEMSET: {
    u64 n = argC(2); if (!n) break;
    u64 d = address(s, arg(0), n, true); Val v = arg(1); Obj *o = wr(s, d, n); u64 off = d - o->base;
    if (!v.e) { memset(&o->b[off], (int)v.c, n); memset(&o->st[off], 1, n); } else for (u64 i = 0; i < n; i++) putByte(o, off + i, v);
    break; }
  case C_BCMP: {
    u64 n = argC(2); u64 a = n ? address(s, arg(0), n, false) : 0, b = n ? address(s, arg(1), n, false) : 0;
    if (f->name == "bcmp") { Expr *e = memEq(s, a, b, n); ret(fromE(mkZext(mkNot(e), w))); break; }
    Expr *r = mkConst(0, w);
    if (n) { rd(s, a, n); rd(s, b, n); }
    for (u64 i = n; i-- > 0;) {
      Expr *x = toE(byteAt(s, a + i), 8), *y = toE(byteAt(s, b + i), 8);
      r = mkIte(mkBin(EQ, x, y), r, mkBin(SUB, mkZext(x, w), mkZext(y, w)));
    }
    ret(fromE(r)); break; }
  case C_STRLEN: { u64 p = argC(0), n = 0; for (;; n++) { Val v = byteAt(s, p + n); u64 c = concretize(s, v, 8); if (!c) break; } ret(cst(n)); break; }
  case C_CLOCK: {
    u64 p = argC(1);
    if (s.clock.e) {
      Expr *g = mkConst(1000000000, 64);
      storeN(s, p, 64, fromE(mkBin(UDIV, s.clock.e, g))); storeN(s, p + 8, 64, fromE(mkBin(UREM, s.clock.e, g)));
    } else { storeN(s, p, 64, cst(s.clock.c / 1000000000)); storeN(s, p + 8, 64, cst(s.clock.c % 1000000000)); }
    ret(cst(0)); break; }
  case C_ZERO: case L_FALSE: ret(cst(0)); break;
  case C_GETENV: ret(cst(0)); break;
  case C_WRITE: ret(f->name == "write" ? arg(2) : cst(0)); break;
  case C_ERRNO: { static Global *g = nullptr; (void)g; u64 a = allocObj(s, 4, KD_STACK); storeN(s, a, 32, cst(0)); ret(cst(a)); break; }
  case C_ABORT: report(s, "panic", "abort"); throw PathEnd();
  case L_TRAP: report(s, "panic", "trap"); throw PathEnd();
  case L_TLS: ret(arg(0)); break;
  case L_ASSUME: {
    Val c = arg(0); if (c.e) c = fromE(subst(s, c.e));
    if (!c.e) { if (!c.c) { report(s, "unreachable", "violated compiler assumption"); throw PathEnd(); } break; }
    if (c.e->undef) break;
    std::vector<std::pair<u32, u8>> m;
    if (feasible(s, mkNot(c.e), &m)) { report(s, "unreachable", "violated compiler assumption", &m); std::vector<std::pair<u32, u8>> m2; if (!feasible(s, c.e, &m2)) throw PathEnd(); setModel(s, m2); addC(s, c.e); }
    break; }
  case L_ABS: { Val x = arg(0); Val ng = binop(B_SUB, w, cst(0), x); ret(ite(icmp(C_SLT, w, x, cst(0)), ng, x, w)); break; }
  case L_BITREV: { Expr *x = toE(arg(0), w), *r = nullptr; for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } ret(fromE(r)); break; }
  case L_BSWAP: { Expr *x = toE(arg(0), w), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } ret(fromE(r)); break; }
  case L_CTLZ: case L_CTTZ: {
    Val v = arg(0); bool lead = f->kind == L_CTLZ;
    if (!v.e && w <= 64) { u64 c = v.c & mask64(w); u64 r = !c ? w : lead ? (u64)__builtin_clzll(c) - (64 - w) : (u64)__builtin_ctzll(c); ret(cst(r)); }
    else ret(fromE(ctz(toE(v, w), lead)));
    break; }
  case L_CTPOP: { Expr *x = toE(arg(0), w), *r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(x, i, 1), w)); ret(fromE(r)); break; }
  case L_FSHL: case L_FSHR: {
    Expr *a = toE(arg(0), w), *b = toE(arg(1), w); u64 k = argC(2) % w;
    Expr *cc = mkConcat(a, b);
    if (f->kind == L_FSHL) ret(fromE(mkExtract(cc, w - k, w))); else ret(fromE(mkExtract(cc, k, w)));
    break; }
  case L_FABS: { Val m; m.c = w == 64 ? 0x7fffffffffffffffull : 0x7fffffff; ret(binop(B_AND, w, arg(0), m)); break; }
  case L_POWI: {
    // compiler-rt's loop, with the exponent decided per path
    i64 b = sx64(argC(1), 32); bool recip = b < 0; Val a = arg(0), r; double one = 1.0; memcpy(&r.c, &one, 8); Val o1 = r;
    if (w != 64) die("powi width");
    while (true) { if (b & 1) r = binop(B_FMUL, w, r, a); b /= 2; if (b == 0) break; a = binop(B_FMUL, w, a, a); }
    ret(recip ? binop(B_FDIV, w, o1, r) : r); break; }
  case L_OVF: {
    unsigned wl = in.a[0].w; Val a = arg(0), b = arg(1); const std::string &n = f->name;
    bool sg = n[5] == 's'; char o = n[6]; // [us](add|sub|mul)
    BinK k = o == 'a' ? B_ADD : o == 's' ? B_SUB : B_MUL;
    Val r = binop(k, wl, a, b), ov;
    Expr *x = toE(a, wl), *y = toE(b, wl);
    unsigned ww = k == B_MUL ? wl * 2 : wl + 1;
    if (ww <= 128) {
      Expr *X = sg ? mkSext(x, ww) : mkZext(x, ww);
      Expr *Y = sg ? mkSext(y, ww) : mkZext(y, ww);
      if (k == B_SUB && !sg) ov = icmp(C_ULT, wl, a, b);
      else if (k == B_ADD && !sg) ov = icmp(C_ULT, wl, r, a);
      else {
        Expr *W = mkBin(k == B_ADD ? ADD : k == B_SUB ? SUB : MUL, X, Y);
        Expr *R = toE(r, wl);
        ov = fromE(mkNot(mkBin(EQ, W, sg ? mkSext(R, ww) : mkZext(R, ww))));
      }
    } else die("overflow width %u", wl);
    put(s, in.dst, r, 0); put(s, in.dst, ov, 1); break; }
  case L_SCMP: case L_UCMP: {
    bool sg = f->kind == L_SCMP; unsigned wl = in.a[0].w; Val a = arg(0), b = arg(1);
    Val lt = icmp(sg ? C_SLT : C_ULT, wl, a, b), gt = icmp(sg ? C_SGT : C_UGT, wl, a, b);
    ret(ite(lt, cst(mask64(w)), ite(gt, cst(1), cst(0), w), w)); break; }
  case L_MINMAX: {
    const std::string &n = f->name; bool sg = n[5] == 's', mx = n[7] == 'a'; Val a = arg(0), b = arg(1);
    if (in.ndst > 1) die("vector minmax");
    Val c = icmp(sg ? (mx ? C_SGT : C_SLT) : (mx ? C_UGT : C_ULT), w, a, b); ret(ite(c, a, b, w)); break; }
  case L_SAT: {
    const std::string &n = f->name; bool sg = n[5] == 's', ad = n[6] == 'a'; Val a = arg(0), b = arg(1);
    if (sg) {
      Val r = binop(ad ? B_ADD : B_SUB, w, a, b);
      Val o = ad ? binop(B_AND, w, binop(B_XOR, w, a, r), binop(B_XOR, w, b, r)) : binop(B_AND, w, binop(B_XOR, w, a, b), binop(B_XOR, w, a, r));
      u64 mn = 1ull << (w - 1);
      ret(ite(icmp(C_SLT, w, o, cst(0)), ite(icmp(C_SLT, w, a, cst(0)), cst(mn), cst(mn - 1), w), r, w));
    } else if (ad) { Val r = binop(B_ADD, w, a, b); ret(ite(icmp(C_ULT, w, r, a), cst(mask64(w)), r, w)); }
    else ret(ite(icmp(C_ULT, w, a, b), cst(0), binop(B_SUB, w, a, b), w));
    break; }
  default: die("call kind %d %s", f->kind, f->name.c_str());
  }
  if (cblk >= 0) jump(s, cblk); else s.fr.back().ip++;
}
