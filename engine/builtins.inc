// Models of functions outside the bitcode. Return 0: result set, advance; 1: control already transferred or state dead / re-execute.
typedef int (*BFn)(Function *, CallInfo &, std::vector<Val> &);
static std::vector<BFn> bfns;
#define BI(n) static int n(Function *fn, CallInfo &ci, std::vector<Val> &a)
#define CONC(v, w) { if (!(v).isC()) { v = Val(forkValue(v, w)); if (dead) return 1; } }
static void reachLabel(const std::string &l) {
  static std::set<std::string> mine; if (!mine.insert(l).second) return;
  int n = g_sh->nreach; for (int i = 0; i < n && i < 512; i++) if (l == g_sh->reach[i]) return;
  int k = g_sh->nreach++; if (k < 512) snprintf(g_sh->reach[k], 96, "%s", l.c_str());
}
static const char *internStr(const std::string &s) { static std::set<std::string> st; return st.insert(s).first->c_str(); }
static bool cstrArg(Val v, std::string &o) { return readCStr(v, o); }
// ---- harness interface
BI(b_val) { CONC(a[0], 32); std::string n; if (!cstrArg(a[1], n)) return 1; unsigned w = a[0].c; Val v = freshVar(w); S->in.push_back({v, (uint8_t)w, 0, internStr(n)}); setRet(ci, mkZext(v, w, 64)); return 0; }
BI(b_make) { CONC(a[1], 64); std::string n; if (!cstrArg(a[2], n)) return 1; const char *nm = internStr(n); std::vector<Val> b(a[1].c); for (auto &x : b) { x = freshVar(8); S->in.push_back({x, 8, 0, nm}); } if (!b.empty() && !storeBytes(a[0], b.size(), b.data())) return 1; return 0; }
BI(b_choice) {
  CONC(a[0], 32); std::string n; if (!cstrArg(a[1], n)) return 1; const char *nm = internStr(n); unsigned k = a[0].c; if (!k) { killState(); return 1; }
  for (unsigned i = k - 1; i >= 1; i--) {
    State *s = forkState(); State *sv = S; S = s; s->in.push_back({Val(i), 32, 1, nm}); setRet(ci, Val(i)); advanceAfterCall(); S = sv; pending.push_back(s);
  }
  S->in.push_back({Val(0), 32, 1, nm}); setRet(ci, Val(0)); return 0;
}
BI(b_assume) {
  Val c = mkExtract(a[0], ci.argW[0], 0, 1); if (ci.argW[0] > 1) c = bNot(mkCmp(K_EQ, a[0], Val(0), ci.argW[0]));
  if (c.isC()) { if (!c.c) { g_sh->assumesKilled++; killState(); return 1; } return 0; }
  std::vector<uint64_t> m; Res r = feasible(c, &m); if (r == UNSAT) { g_sh->assumesKilled++; killState(); return 1; } if (r == UNKNOWN) { inconclusive("solver timeout on an assumption"); killState(); return 1; }
  if (impliedQ(c) != 1) addPc(S, c); S->model = m; return 0;
}
BI(b_assert) {
  g_sh->asserts++;
  Val c = ci.argW[0] > 1 ? bNot(mkCmp(K_EQ, a[0], Val(0), ci.argW[0])) : a[0]; std::string msg;
  if (c.isC()) { if (c.c & 1) return 0; cstrArg(a[1], msg); violation("assert", msg, S->model); killState(); return 1; }
  std::vector<uint64_t> m; Res r = feasible(bNot(c), &m);
  if (r == SAT) { cstrArg(a[1], msg); violation("assert", msg, m); if (feasible(c, &m) != SAT) { killState(); return 1; } addPc(S, c); S->model = m; }
  else if (r == UNKNOWN) { cstrArg(a[1], msg); inconclusive("solver timeout on assertion: " + msg); addPc(S, c); if (!(evalS(c) & 1)) { killState(); return 1; } }
  return 0;
}
BI(b_reach) { std::string n; if (!cstrArg(a[0], n)) return 1; reachLabel(n); return 0; }
BI(b_trace) { S->tr.push_back({a[0], (uint8_t)ci.argW[0]}); return 0; }
BI(b_allow) { CONC(a[0], 32); S->allowAbort = a[0].c; return 0; }
BI(b_param) { std::string n; if (!cstrArg(a[0], n)) return 1; auto i = g_opt.params.find(n); setRet(ci, i == g_opt.params.end() ? a[1] : Val((uint64_t)i->second)); return 0; }
BI(b_conc) { CONC(a[0], 64); setRet(ci, a[0]); return 0; }
BI(b_live) { setRet(ci, Val((uint64_t)S->live)); return 0; }
BI(b_symbolic) { setRet(ci, Val(1)); return 0; }
BI(b_end) { pathEnd("done"); killState(); return 1; }
BI(b_fail) { std::string m; cstrArg(a[0], m); violationKill("assert", m); return 1; }
BI(b_allocfail) { S->allocFail = -1; CONC(a[0], 32); S->allocFail = (int)a[0].c; S->allocN = 0; return 0; }
BI(b_objsize) { CONC(a[0], 64); Obj *o = S->mem.get(a[0].c >> 32); setRet(ci, Val(o && !o->freed ? o->size : 0)); return 0; }
// may this pointer be read for n bytes (no violation raised)
BI(b_readable) { CONC(a[0], 64); CONC(a[1], 64); setRet(ci, Val((uint64_t)okAt(a[0].c, a[1].c, false))); return 0; }
// ---- threads
BI(b_spawn) {
  CONC(a[0], 64); auto it = g_mod->fnByAddr.find(a[0].c); if (it == g_mod->fnByAddr.end()) { unmodelled("thread function"); return 1; }
  Function *tf = g_mod->fns[it->second]; Val arg = a[1]; int id = S->th.size(); setRet(ci, Val((uint64_t)id)); advanceAfterCall();
  S->th.emplace_back(); int keep = S->cur; S->cur = id; pushCall(tf, {arg}, 0, 0, true); S->cur = keep; return 1;
}
BI(b_join) { CONC(a[0], 32); int id = a[0].c; if (id < 0 || id >= (int)S->th.size()) { setRet(ci, Val(1)); return 0; } if (S->th[id].done) { S->skipYield = false; return 0; } T().joinTid = id; mustSwitch(); return 1; }
BI(b_yield) { yieldPoint(); S->skipYield = false; return 0; }
BI(b_blockwhile) { // block while *addr == val ; re-evaluated when scheduled
  CONC(a[0], 64); Val v; if (!load(a[0], 32, v)) return 1; CONC(v, 32); CONC(a[1], 32); if (v.c != a[1].c) return 0; T().blocked = true; T().bAddr = a[0].c; T().bVal = a[1].c; T().bW = 32; mustSwitch(); return 1;
}
BI(b_watch) { CONC(a[0], 64); S->watch.push_back(a[0].c >> 32); return 0; }
BI(b_atomic) { CONC(a[0], 32); T().atomic = a[0].c != 0; return 0; }
BI(b_tid) { setRet(ci, Val((uint64_t)S->cur)); return 0; }
BI(b_tdone) { CONC(a[0], 32); setRet(ci, Val((uint64_t)(a[0].c < S->th.size() && S->th[a[0].c].done))); return 0; }
BI(b_texit) { while (T().fr.size() > 1) popFrame(); popFrame(); T().done = true; mustSwitch(); return 1; }
// ---- allocation
static int doAlloc(CallInfo &ci, Val n, int hk, bool zero, bool throws) {
  CONC(n, 64);
  bool fail = n.c > (1ULL << 31);
  if (S->allocFail >= 0 && (int)S->allocN++ == S->allocFail) fail = true;
  if (fail) { if (throws) { throwStd("_ZTISt9bad_alloc"); return 1; } setRet(ci, Val(0)); return 0; }
  if (n.c > (256u << 20)) { unmodelled("allocation of more than 256 MB"); return 1; }
  S->live++; setRet(ci, Val(allocObj(OK_HEAP, n.c, !zero, hk))); return 0;
}
static int doFree(Val p, int hk) {
  if (!p.isC()) { p = Val(forkValue(p, 64)); if (dead) return 1; }
  if (p.c == 0) return 0;
  uint64_t id = p.c >> 32; Obj *o = S->mem.get(id);
  if (!o || o->kind != OK_HEAP) { violationKill("memory", "free of memory that is not heap memory"); return 1; }
  if (o->freed) { violationKill("memory", "double free"); return 1; }
  if ((p.c & 0xffffffff) != OBJ_OFF) { violationKill("memory", "free of a pointer into the middle of an allocation"); return 1; }
  if (o->hk != hk) { violationKill("memory", "mismatched allocation and deallocation functions"); return 1; }
  Obj *t = newObj(OK_HEAP, 0, false); t->size = o->size; t->freed = true; t->hk = o->hk; S->mem.put(id, t); S->live--; S->wr++; return 0;
}
BI(b_malloc) { return doAlloc(ci, a[0], HK_MALLOC, false, false); }
BI(b_calloc) { CONC(a[0], 64); CONC(a[1], 64); unsigned long long m; if (__builtin_mul_overflow((unsigned long long)a[0].c, (unsigned long long)a[1].c, &m)) { setRet(ci, Val(0)); return 0; } return doAlloc(ci, Val((uint64_t)m), HK_MALLOC, true, false); }
BI(b_realloc) {
  CONC(a[0], 64); CONC(a[1], 64); if (!a[0].c) return doAlloc(ci, a[1], HK_MALLOC, false, false);
  uint64_t id = a[0].c >> 32; Obj *o = S->mem.get(id);
  if (!o || o->kind != OK_HEAP || o->freed || o->hk != HK_MALLOC || (a[0].c & 0xffffffff) != OBJ_OFF) { violationKill("memory", "invalid realloc"); return 1; }
  if (a[1].c > (256u << 20)) { setRet(ci, Val(0)); return 0; }
  uint64_t os = o->size; uint64_t n = allocObj(OK_HEAP, a[1].c, true, HK_MALLOC); S->live++; if (!memCopy(Val(n), a[0], std::min(os, a[1].c), true)) return 1; if (doFree(a[0], HK_MALLOC)) return 1; setRet(ci, Val(n)); return 0;
}
BI(b_free) { return doFree(a[0], HK_MALLOC); }
BI(b_new) { return doAlloc(ci, a[0], HK_NEW, false, true); }
BI(b_newarr) { return doAlloc(ci, a[0], HK_NEWARR, false, true); }
BI(b_newnt) { return doAlloc(ci, a[0], HK_NEW, false, false); }
BI(b_newarrnt) { return doAlloc(ci, a[0], HK_NEWARR, false, false); }
BI(b_del) { return doFree(a[0], HK_NEW); }
BI(b_delarr) { return doFree(a[0], HK_NEWARR); }
BI(b_memalign) { CONC(a[1], 64); CONC(a[2], 64); uint64_t p = allocObj(OK_HEAP, a[2].c, true, HK_MALLOC); S->live++; if (!store(a[0], 64, Val(p))) return 1; setRet(ci, Val(0)); return 0; }
// ---- memory
BI(b_memcpy) { CONC(a[2], 64); if (!memCopy(a[0], a[1], a[2].c, fn->name == "memmove")) return 1; setRet(ci, a[0]); return 0; }
BI(b_memset) { CONC(a[2], 64); if (a[2].c) { std::vector<Val> t(a[2].c, mkExtract(a[1], ci.argW[1], 0, 8)); if (!storeBytes(a[0], a[2].c, t.data())) return 1; } setRet(ci, a[0]); return 0; }
BI(b_memcmp) {
  CONC(a[2], 64); uint64_t n = a[2].c; if (n == 0) { setRet(ci, Val(0)); return 0; } if (n > 65536) { unmodelled("large memcmp"); return 1; }
  std::vector<Val> x(n), y(n); if (!loadBytes(a[0], n, x.data()) || !loadBytes(a[1], n, y.data())) return 1;
  Val r = Val(0); for (uint64_t i = n; i-- > 0;) { Val eq = mkCmp(K_EQ, x[i], y[i], 8); Val lt = mkCmp(K_ULT, x[i], y[i], 8); r = mkIte(eq, r, mkIte(lt, Val(0xffffffffULL), Val(1), 32), 32); }
  setRet(ci, r); return 0;
}
// ---- exceptions
BI(b_exalloc) { CONC(a[0], 64); setRet(ci, Val(allocObj(OK_EXC, a[0].c, true))); return 0; }
BI(b_exfree) { return 0; }
BI(b_throw) { CONC(a[0], 64); CONC(a[1], 64); T().cur = Exc{a[0].c, a[1].c}; unwind(true); return 1; }
BI(b_begincatch) { T().caught.push_back(T().cur); setRet(ci, a[0]); return 0; }
BI(b_getexcptr) { setRet(ci, a[0]); return 0; }
BI(b_endcatch) { if (!T().caught.empty()) T().caught.pop_back(); return 0; }
BI(b_rethrow) { if (T().caught.empty()) { endAbort("rethrow without exception"); return 1; } T().cur = T().caught.back(); unwind(true); return 1; }
BI(b_uncaught) { setRet(ci, Val(0)); return 0; }
BI(b_throw_lenerr) { throwStd("_ZTISt12length_error"); return 1; }
BI(b_throw_oor) { throwStd("_ZTISt12out_of_range"); return 1; }
BI(b_throw_logic) { throwStd("_ZTISt11logic_error"); return 1; }
BI(b_throw_inv) { throwStd("_ZTISt16invalid_argument"); return 1; }
BI(b_throw_badalloc) { throwStd("_ZTISt9bad_alloc"); return 1; }
BI(b_throw_badlen) { throwStd("_ZTISt20bad_array_new_length"); return 1; }
BI(b_throw_badcast) { throwStd("_ZTISt8bad_cast"); return 1; }
BI(b_throw_badfn) { throwStd("_ZTISt17bad_function_call"); return 1; }
BI(b_dyncast) {
  CONC(a[0], 64); CONC(a[2], 64); CONC(a[1], 64); if (!a[0].c) { setRet(ci, Val(0)); return 0; }
  Val vp; if (!load(a[0], 64, vp)) return 1; CONC(vp, 64); Val ti, ott; if (!load(Val(vp.c - 8), 64, ti) || !load(Val(vp.c - 16), 64, ott)) return 1; CONC(ti, 64); CONC(ott, 64);
  std::vector<uint64_t> subs; if (!tiFind(ti.c, a[2].c, a[0].c + ott.c, subs)) return 1;
  setRet(ci, subs.size() == 1 ? Val(subs[0]) : Val(0)); return 0;
}
BI(b_guard_acquire) { Val v; if (!load(a[0], 8, v)) return 1; CONC(v, 8); setRet(ci, Val((uint64_t)(v.c ? 0 : 1))); return 0; }
BI(b_guard_release) { if (!store(a[0], 8, Val(1))) return 1; return 0; }
BI(b_zero) { for (int i = 0; i < ci.nret; i++) setRet(ci, Val(0), i); return 0; }
BI(b_first) { setRet(ci, a.empty() ? Val(0) : a[0]); return 0; }
BI(b_abort) { endAbort("abort() called"); return 1; }
BI(b_terminate) { endAbort("std::terminate called"); return 1; }
BI(b_purevirt) { endAbort("pure virtual call"); return 1; }
BI(b_exit) { CONC(a[0], 32); if (S->allowAbort) { endAbort(""); return 1; } violationKill("abort", ssprintf("exit(%d) called", (int)a[0].c)); return 1; }
BI(b_assertfail) { std::string e; if (a[0].isC()) cstrArg(a[0], e); endAbort("assertion failed: " + e.substr(0, 120)); return 1; }
BI(b_errno) { uint64_t &e = S->kv["errno"]; if (!e) { e = allocObj(OK_GLOBAL, 4, false); } setRet(ci, Val(e)); return 0; }
// ---- libm: concrete arguments only (symbolic ones are outside the model)
template <class FT> static int math1(CallInfo &ci, std::vector<Val> &a, FT f, const char *n) { if (!a[0].isC()) { unmodelled(std::string("symbolic argument to ") + n); return 1; } double d; memcpy(&d, &a[0].c, 8); d = f(d); uint64_t r; memcpy(&r, &d, 8); setRet(ci, Val(r)); return 0; }
template <class FT> static int math2(CallInfo &ci, std::vector<Val> &a, FT f, const char *n) { if (!a[0].isC() || !a[1].isC()) { unmodelled(std::string("symbolic argument to ") + n); return 1; } double d, e; memcpy(&d, &a[0].c, 8); memcpy(&e, &a[1].c, 8); d = f(d, e); uint64_t r; memcpy(&r, &d, 8); setRet(ci, Val(r)); return 0; }
#define M1(n) BI(b_m_##n) { return math1(ci, a, [](double x) { return ::n(x); }, #n); }
#define M2(n) BI(b_m_##n) { return math2(ci, a, [](double x, double y) { return ::n(x, y); }, #n); }
M1(log) M1(exp) M1(sin) M1(cos) M1(tan) M1(atan) M1(asin) M1(acos) M1(log10) M1(log2) M1(exp2) M1(cbrt) M1(lgamma) M1(tgamma) M1(erf) M1(sinh) M1(cosh) M1(tanh) M1(log1p) M1(expm1) M2(pow) M2(fmod) M2(atan2) M2(hypot)
static int mround(CallInfo &ci, std::vector<Val> &a, int mode) { setRet(ci, mkFUn(K_FROUND, a[0], ci.argW[0], mode)); return 0; }
BI(b_floor) { return mround(ci, a, RM_FLOOR); } BI(b_ceil) { return mround(ci, a, RM_CEIL); } BI(b_round) { return mround(ci, a, RM_ROUND); } BI(b_trunc) { return mround(ci, a, RM_TRUNC); } BI(b_rint) { return mround(ci, a, RM_RINT); }
BI(b_sqrt) { setRet(ci, mkFUn(K_FSQRT, a[0], ci.argW[0], 0)); return 0; }
BI(b_fabs) { setRet(ci, mkBin(K_AND, a[0], Val(maskw(ci.argW[0] - 1)), ci.argW[0])); return 0; }
BI(b_lround) { setRet(ci, mkFCvt(K_FP2SI, mkFUn(K_FROUND, a[0], 64, RM_ROUND), 64, 64)); return 0; }
BI(b_lrint) { setRet(ci, mkFCvt(K_FP2SI, mkFUn(K_FROUND, a[0], 64, RM_RINT), 64, 64)); return 0; }
// vararg formatted printing is delegated to rt: rt_vsnprintf(buf, n, fmt, args[], nargs)
BI(b_snprintf) { // (buf, n, fmt, ...)
  auto it = g_mod->fnByName.find("symx_rt_vsnprintf"); if (it == g_mod->fnByName.end() || !g_mod->fns[it->second]->defined) { unmodelled("snprintf"); return 1; }
  size_t nv = a.size() - 3; uint64_t arr = allocObj(OK_HEAP, 8 * (nv + 1), false); for (size_t i = 0; i < nv; i++) { unsigned w = ci.argW[3 + i]; if (!store(Val(arr + 8 * i), 64, mkSext(a[3 + i], w, 64))) return 1; }
  std::vector<Val> args{a[0], a[1], a[2], Val(arr), Val((uint64_t)nv)}; pushCall(g_mod->fns[it->second], args, ci.dst, ci.nret, false); return 1;
}
BI(b_callrt_reg) { // trampoline: function X implemented by symx_rt_X
  auto it = g_mod->fnByName.find("symx_rt_" + fn->name); if (it == g_mod->fnByName.end() || !g_mod->fns[it->second]->defined) { unmodelled("call to " + fn->name); return 1; }
  pushCall(g_mod->fns[it->second], a, ci.dst, ci.nret, false); return 1;
}
static void bindBuiltins() {
  std::map<std::string, BFn> t = {
    {"symx_val", b_val}, {"symx_make", b_make}, {"symx_choice", b_choice}, {"symx_assume", b_assume}, {"symx_assert", b_assert}, {"symx_reach", b_reach}, {"symx_trace", b_trace}, {"symx_allow_abort", b_allow}, {"symx_param", b_param}, {"symx_concretize", b_conc}, {"symx_live", b_live}, {"symx_symbolic", b_symbolic}, {"symx_end", b_end}, {"symx_fail", b_fail}, {"symx_alloc_fail", b_allocfail}, {"symx_objsize", b_objsize}, {"symx_readable", b_readable},
    {"symx_spawn", b_spawn}, {"symx_join", b_join}, {"symx_yield", b_yield}, {"symx_watch", b_watch}, {"symx_atomic", b_atomic}, {"symx_block_while", b_blockwhile}, {"symx_tid", b_tid}, {"symx_thread_done", b_tdone}, {"symx_thread_exit", b_texit},
    {"malloc", b_malloc}, {"calloc", b_calloc}, {"realloc", b_realloc}, {"free", b_free}, {"cfree", b_free}, {"posix_memalign", b_memalign},
    {"_Znwm", b_new}, {"_Znam", b_newarr}, {"_ZnwmRKSt9nothrow_t", b_newnt}, {"_ZnamRKSt9nothrow_t", b_newarrnt}, {"_ZnwmSt11align_val_t", b_new}, {"_ZnamSt11align_val_t", b_newarr}, {"_ZdlPv", b_del}, {"_ZdlPvm", b_del}, {"_ZdaPv", b_delarr}, {"_ZdaPvm", b_delarr}, {"_ZdlPvSt11align_val_t", b_del}, {"_ZdlPvmSt11align_val_t", b_del}, {"_ZdlPvRKSt9nothrow_t", b_del}, {"_ZdaPvRKSt9nothrow_t", b_delarr},
    {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_memcmp},
    {"__cxa_allocate_exception", b_exalloc}, {"__cxa_free_exception", b_exfree}, {"__cxa_throw", b_throw}, {"__cxa_begin_catch", b_begincatch}, {"__cxa_get_exception_ptr", b_getexcptr}, {"__cxa_end_catch", b_endcatch}, {"__cxa_rethrow", b_rethrow}, {"_ZSt18uncaught_exceptionv", b_uncaught}, {"_ZSt19uncaught_exceptionsv", b_uncaught},
    {"_ZSt20__throw_length_errorPKc", b_throw_lenerr}, {"_ZSt20__throw_out_of_rangePKc", b_throw_oor}, {"_ZSt24__throw_out_of_range_fmtPKcz", b_throw_oor}, {"_ZSt19__throw_logic_errorPKc", b_throw_logic}, {"_ZSt24__throw_invalid_argumentPKc", b_throw_inv}, {"_ZSt17__throw_bad_allocv", b_throw_badalloc}, {"_ZSt28__throw_bad_array_new_lengthv", b_throw_badlen}, {"__cxa_throw_bad_array_new_length", b_throw_badlen}, {"__cxa_bad_cast", b_throw_badcast}, {"_ZSt16__throw_bad_castv", b_throw_badcast}, {"_ZSt25__throw_bad_function_callv", b_throw_badfn},
    {"__dynamic_cast", b_dyncast}, {"__cxa_guard_acquire", b_guard_acquire}, {"__cxa_guard_release", b_guard_release}, {"__cxa_guard_abort", b_zero}, {"__cxa_atexit", b_zero}, {"atexit", b_zero}, {"__cxa_thread_atexit", b_zero},
    {"abort", b_abort}, {"_ZSt9terminatev", b_terminate}, {"__cxa_pure_virtual", b_purevirt}, {"exit", b_exit}, {"_exit", b_exit}, {"_Exit", b_exit}, {"__assert_fail", b_assertfail}, {"__errno_location", b_errno},
    {"printf", b_zero}, {"fprintf", b_zero}, {"puts", b_zero}, {"putchar", b_zero}, {"fputs", b_zero}, {"fputc", b_zero}, {"fflush", b_zero}, {"fwrite", b_zero}, {"perror", b_zero}, {"vfprintf", b_zero}, {"getenv", b_zero}, {"setlocale", b_zero}, {"_ZNSt8ios_base4InitC1Ev", b_zero}, {"_ZNSt8ios_base4InitD1Ev", b_zero}, {"_ZSt21ios_base_library_initv", b_zero}, {"sched_yield", b_yield},
    {"snprintf", b_snprintf},
    {"log", b_m_log}, {"exp", b_m_exp}, {"sin", b_m_sin}, {"cos", b_m_cos}, {"tan", b_m_tan}, {"atan", b_m_atan}, {"asin", b_m_asin}, {"acos", b_m_acos}, {"log10", b_m_log10}, {"log2", b_m_log2}, {"exp2", b_m_exp2}, {"cbrt", b_m_cbrt}, {"lgamma", b_m_lgamma}, {"tgamma", b_m_tgamma}, {"erf", b_m_erf}, {"sinh", b_m_sinh}, {"cosh", b_m_cosh}, {"tanh", b_m_tanh}, {"log1p", b_m_log1p}, {"expm1", b_m_expm1}, {"pow", b_m_pow}, {"fmod", b_m_fmod}, {"atan2", b_m_atan2}, {"hypot", b_m_hypot},
    {"floor", b_floor}, {"ceil", b_ceil}, {"round", b_round}, {"trunc", b_trunc}, {"rint", b_rint}, {"nearbyint", b_rint}, {"sqrt", b_sqrt}, {"fabs", b_fabs}, {"floorf", b_floor}, {"ceilf", b_ceil}, {"sqrtf", b_sqrt}, {"lround", b_lround}, {"llround", b_lround}, {"lrint", b_lrint}, {"llrint", b_lrint},
  };
  for (Function *f : g_mod->fns) {
    auto it = t.find(f->name); bool stream = false;
    // iostream output is not an observable of any checked property: its functions do nothing and return their stream argument
    if (f->name.compare(0, 4, "_ZNS") == 0 || f->name.compare(0, 3, "_ZS") == 0 || f->name.compare(0, 4, "_ZNK") == 0) { const std::string &p = f->pretty.empty() ? f->name : f->pretty; (void)p;
      if (f->name.compare(0, 6, "_ZNSo") == 0 || f->name.compare(0, 5, "_ZNSo") == 0 || f->name.find("_ZStlsISt11char_traitsIcE") == 0 || f->name.find("_ZStlsIcSt11char_traits") == 0 || f->name.find("_ZSt16__ostream_insert") == 0 || f->name.find("_ZSt4endlI") == 0 || f->name.find("_ZSt5flushI") == 0 || f->name.find("_ZNSt9basic_iosIcSt11char_traitsIcEE") == 0 || f->name.find("_ZNSolsE") == 0) stream = true; }
    if (stream) { f->builtin = bfns.size(); bfns.push_back(b_first); continue; }
    if (it == t.end()) continue;
    if (f->defined && f->name.compare(0, 5, "symx_") != 0) continue; // a definition in the bitcode wins
    f->builtin = bfns.size(); bfns.push_back(it->second);
  }
}
static int callBuiltin(Function *fn, CallInfo &ci, std::vector<Val> &args) { return bfns[fn->builtin](fn, ci, args); }
