#include "solver.hpp"
#include "sat.hpp"
#include <z3.h>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <deque>

SolverStats g_sst;
unsigned g_timeoutMs = 60000;
std::string g_dumpDir;
static Z3_context C;
static Z3_sort bvs[65];
static Z3_sort fp32, fp64;
static Z3_ast rne, rtz, rup, rdn, rna;
static std::vector<Z3_ast> varAst;   // by idx (first width wins; idx+width key)
static std::unordered_map<uint64_t, Z3_ast> vars;

static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  _Exit(97);
}
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, zerr);
  for (int i = 1; i <= 64; i++) { bvs[i] = Z3_mk_bv_sort(C, i); Z3_inc_ref(C, Z3_sort_to_ast(C, bvs[i])); }
  fp32 = Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, Z3_sort_to_ast(C, fp32));
  fp64 = Z3_mk_fpa_sort_64(C); Z3_inc_ref(C, Z3_sort_to_ast(C, fp64));
  rne = Z3_mk_fpa_rne(C); Z3_inc_ref(C, rne); rtz = Z3_mk_fpa_rtz(C); Z3_inc_ref(C, rtz);
  rup = Z3_mk_fpa_rtp(C); Z3_inc_ref(C, rup); rdn = Z3_mk_fpa_rtn(C); Z3_inc_ref(C, rdn); rna = Z3_mk_fpa_rna(C); Z3_inc_ref(C, rna);
}
static Z3_ast bvc(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C, v, bvs[w]); }
static Z3_ast tz(Node *n);
static Z3_ast tzbv(Node *n) { // always a bit-vector
  Z3_ast a = tz(n);
  if (n->w == 1) return Z3_mk_ite(C, a, bvc(1, 1), bvc(0, 1));
  return a;
}
static std::unordered_map<Node *, Z3_ast> fpc;
static Z3_sort fps(unsigned w) { return w == 64 ? fp64 : fp32; }
static Z3_ast tzfp(Node *n) {
  auto i = fpc.find(n);
  if (i != fpc.end()) return i->second;
  Z3_ast r = nullptr;
  switch (n->k) {
  case K_FADD: r = Z3_mk_fpa_add(C, rne, tzfp(n->a), tzfp(n->b)); break;
  case K_FSUB: r = Z3_mk_fpa_sub(C, rne, tzfp(n->a), tzfp(n->b)); break;
  case K_FMUL: r = Z3_mk_fpa_mul(C, rne, tzfp(n->a), tzfp(n->b)); break;
  case K_FDIV: r = Z3_mk_fpa_div(C, rne, tzfp(n->a), tzfp(n->b)); break;
  case K_FSQRT: r = Z3_mk_fpa_sqrt(C, rne, tzfp(n->a)); break;
  case K_FROUND: { Z3_ast m = n->v == RM_FLOOR ? rdn : n->v == RM_CEIL ? rup : n->v == RM_TRUNC ? rtz : n->v == RM_ROUND ? rna : rne; r = Z3_mk_fpa_round_to_integral(C, m, tzfp(n->a)); break; }
  case K_SI2FP: r = Z3_mk_fpa_to_fp_signed(C, rne, tzbv(n->a), fps(n->w)); break;
  case K_UI2FP: r = Z3_mk_fpa_to_fp_unsigned(C, rne, tzbv(n->a), fps(n->w)); break;
  case K_FPCVT: r = Z3_mk_fpa_to_fp_float(C, rne, tzfp(n->a), fps(n->w)); break;
  case K_ITE: r = Z3_mk_ite(C, tz(n->a), tzfp(n->b), tzfp(n->c)); break;
  default: r = Z3_mk_fpa_to_fp_bv(C, tz(n), fps(n->w)); break;
  }
  Z3_inc_ref(C, r);
  fpc[n] = r;
  return r;
}
static Z3_ast fconst(double d, unsigned w) { return Z3_mk_fpa_numeral_double(C, d, fps(w)); }
static Z3_ast tz(Node *n) {
  if (n->z3) return (Z3_ast)n->z3;
  Z3_ast r = nullptr;
  bool b1 = n->w == 1;
  switch (n->k) {
  case K_CONST: r = b1 ? (n->v ? Z3_mk_true(C) : Z3_mk_false(C)) : bvc(n->v, n->w); break;
  case K_VAR: {
    char nm[32]; snprintf(nm, 32, "v%llu_%d", (unsigned long long)n->v, n->w);
    r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), b1 ? Z3_mk_bool_sort(C) : bvs[n->w]);
    break;
  }
  case K_ADD: r = Z3_mk_bvadd(C, tz(n->a), tz(n->b)); break;
  case K_SUB: r = Z3_mk_bvsub(C, tz(n->a), tz(n->b)); break;
  case K_MUL: r = Z3_mk_bvmul(C, tz(n->a), tz(n->b)); break;
  case K_UDIV: r = b1 ? tz(n->a) : Z3_mk_bvudiv(C, tz(n->a), tz(n->b)); break;
  case K_SDIV: r = Z3_mk_bvsdiv(C, tz(n->a), tz(n->b)); break;
  case K_UREM: r = Z3_mk_bvurem(C, tz(n->a), tz(n->b)); break;
  case K_SREM: r = Z3_mk_bvsrem(C, tz(n->a), tz(n->b)); break;
  case K_AND: { if (b1) { Z3_ast x[2] = {tz(n->a), tz(n->b)}; r = Z3_mk_and(C, 2, x); } else r = Z3_mk_bvand(C, tz(n->a), tz(n->b)); break; }
  case K_OR: { if (b1) { Z3_ast x[2] = {tz(n->a), tz(n->b)}; r = Z3_mk_or(C, 2, x); } else r = Z3_mk_bvor(C, tz(n->a), tz(n->b)); break; }
  case K_XOR: r = b1 ? Z3_mk_xor(C, tz(n->a), tz(n->b)) : Z3_mk_bvxor(C, tz(n->a), tz(n->b)); break;
  case K_SHL: r = Z3_mk_bvshl(C, tz(n->a), tz(n->b)); break;
  case K_LSHR: r = Z3_mk_bvlshr(C, tz(n->a), tz(n->b)); break;
  case K_ASHR: r = Z3_mk_bvashr(C, tz(n->a), tz(n->b)); break;
  case K_EQ: r = Z3_mk_eq(C, tz(n->a), tz(n->b)); break;
  case K_ULT: r = Z3_mk_bvult(C, tz(n->a), tz(n->b)); break;
  case K_SLT: r = Z3_mk_bvslt(C, tz(n->a), tz(n->b)); break;
  case K_ITE: r = Z3_mk_ite(C, tz(n->a), tz(n->b), tz(n->c)); break;
  case K_CONCAT: r = Z3_mk_concat(C, tzbv(n->a), tzbv(n->b)); break;
  case K_EXTRACT: r = Z3_mk_extract(C, n->v + n->w - 1, n->v, tzbv(n->a)); if (b1) r = Z3_mk_eq(C, r, bvc(1, 1)); break;
  case K_ZEXT: r = Z3_mk_zero_ext(C, n->w - n->a->w, tzbv(n->a)); break;
  case K_SEXT: r = Z3_mk_sign_ext(C, n->w - n->a->w, tzbv(n->a)); break;
  case K_NOT: r = b1 ? Z3_mk_not(C, tz(n->a)) : Z3_mk_bvnot(C, tz(n->a)); break;
  case K_FP2SI: case K_FP2UI: {
    unsigned wf = n->w2; Z3_ast f = tzfp(n->a);
    // x86 conversion semantics: go through int32 / int64 with an indefinite value out of range
    if (n->k == K_FP2SI && n->w == 32) {
      Z3_ast in[2] = {Z3_mk_fpa_gt(C, f, fconst(-2147483649.0, wf)), Z3_mk_fpa_lt(C, f, fconst(2147483648.0, wf))};
      if (wf == 32) in[0] = Z3_mk_fpa_geq(C, f, fconst(-2147483648.0, wf));
      r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_sbv(C, rtz, f, 32), bvc(0x80000000ULL, 32));
    } else if (n->k == K_FP2UI && n->w == 64) {
      Z3_ast neg[2] = {Z3_mk_fpa_lt(C, f, fconst(0, wf)), Z3_mk_fpa_gt(C, f, fconst(-9223372036854775808.0, wf))};
      Z3_ast nonneg[2] = {Z3_mk_fpa_geq(C, f, fconst(0, wf)), Z3_mk_fpa_lt(C, f, fconst(18446744073709551616.0, wf))};
      r = Z3_mk_ite(C, Z3_mk_and(C, 2, nonneg), Z3_mk_fpa_to_ubv(C, rtz, f, 64),
          Z3_mk_ite(C, Z3_mk_and(C, 2, neg), Z3_mk_fpa_to_sbv(C, rtz, f, 64),
            Z3_mk_ite(C, Z3_mk_fpa_geq(C, f, fconst(0, wf)), bvc(0, 64), bvc(0x8000000000000000ULL, 64))));
    } else {
      Z3_ast in[2] = {Z3_mk_fpa_geq(C, f, fconst(-9223372036854775808.0, wf)), Z3_mk_fpa_lt(C, f, fconst(9223372036854775808.0, wf))};
      r = Z3_mk_ite(C, Z3_mk_and(C, 2, in), Z3_mk_fpa_to_sbv(C, rtz, f, 64), bvc(n->k == K_FP2SI && n->w == 64 ? 0x8000000000000000ULL : 0, 64));
      if (n->w < 64) r = Z3_mk_extract(C, n->w - 1, 0, r);
    }
    break;
  }
  case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FSQRT: case K_FROUND: case K_SI2FP: case K_UI2FP: case K_FPCVT:
    r = Z3_mk_fpa_to_ieee_bv(C, tzfp(n)); break;
  default: fprintf(stderr, "z3 translate: unsupported kind %d\n", n->k); _Exit(96);
  }
  Z3_inc_ref(C, r);
  n->z3 = r;
  return r;
}

static void collectVars(Node *n, std::vector<std::pair<uint64_t, Node *>> &out, std::unordered_map<Node *, char> &seen) {
  if (!n || seen.count(n)) return;
  seen[n] = 1;
  if (n->k == K_VAR) { out.push_back({n->v, n}); return; }
  collectVars(n->a, out, seen); collectVars(n->b, out, seen); collectVars(n->c, out, seen);
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<uint64_t, std::vector<std::pair<std::vector<uint32_t>, CacheEnt>>> cache;
static size_t cacheN = 0;
// recent satisfying models (full overlays)
static std::deque<std::vector<uint64_t>> recent;

std::string smt2Of(const std::vector<Node *> &cs) {
  std::vector<Z3_ast> as; for (Node *n : cs) as.push_back(tz(n));
  if (as.empty()) return "";
  Z3_ast last = as.back(); as.pop_back();
  return Z3_benchmark_to_smtlib_string(C, "symx", "", "unknown", "", as.size(), as.data(), last);
}

Res solverCheck(const std::vector<Node *> &pc, Val extra, std::vector<uint64_t> &model) {
  if (extra.isC()) return (extra.c & 1) ? SAT : UNSAT;
  g_sst.queries++;
  Node *e = extra.n;
  // slice
  std::vector<Node *> sl;
  sl.push_back(e);
  {
    std::vector<char> used(pc.size(), 0);
    std::vector<uint64_t> cur(e->vs->w, e->vs->w + e->vs->n);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
        const VarSet *v = pc[i]->vs; bool x = false;
        size_t n = std::min<size_t>(v->n, cur.size());
        for (size_t j = 0; j < n; j++) if (v->w[j] & cur[j]) { x = true; break; }
        if (x) {
          used[i] = 1; sl.push_back(pc[i]);
          if (v->n > cur.size()) cur.resize(v->n, 0);
          for (size_t j = 0; j < v->n; j++) if (v->w[j] & ~cur[j]) { cur[j] |= v->w[j]; ch = true; }
        }
      }
    }
  }
  std::sort(sl.begin(), sl.end(), [](Node *a, Node *b) { return a->id < b->id; });
  sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
  // trivially contradictory?
  for (Node *n : sl) if (n->k == K_NOT && std::binary_search(sl.begin(), sl.end(), n->a, [](Node *a, Node *b) { return a->id < b->id; })) return UNSAT;
  std::vector<uint32_t> key; key.reserve(sl.size());
  uint64_t h = 0xcbf29ce484222325ULL;
  for (Node *n : sl) { key.push_back(n->id); h = (h ^ n->id) * 0x100000001b3ULL; h ^= h >> 31; }
  auto &bucket = cache[h];
  for (auto &p : bucket) if (p.first == key) {
    g_sst.cacheHits++;
    if (p.second.r == SAT) for (auto &kv : p.second.m) { if (model.size() <= kv.first) model.resize(kv.first + 1, 0); model[kv.first] = kv.second; }
    return p.second.r;
  }
  std::vector<std::pair<uint64_t, Node *>> vs; 
  auto finish = [&](Res r, const std::vector<uint64_t> *src) {
    CacheEnt ce; ce.r = r;
    if (r == SAT) {
      std::unordered_map<Node *, char> seen;
      if (vs.empty()) for (Node *n : sl) collectVars(n, vs, seen);
      for (auto &v : vs) { uint64_t x = v.first < src->size() ? (*src)[v.first] : 0; ce.m.push_back({(uint32_t)v.first, x}); }
      for (auto &kv : ce.m) { if (model.size() <= kv.first) model.resize(kv.first + 1, 0); model[kv.first] = kv.second; }
    }
    if (cacheN > 400000) { cache.clear(); cacheN = 0; cache[h].push_back({key, ce}); }
    else bucket.push_back({key, ce});
    cacheN++;
    return r;
  };
  // try recent models
  for (auto it = recent.begin(); it != recent.end(); ++it) {
    evalNewEpoch();
    bool ok = true;
    for (Node *n : sl) if (!evalNode(n, *it)) { ok = false; break; }
    if (ok) { g_sst.modelHits++; std::vector<uint64_t> m = *it; return finish(SAT, &m); }
  }
  auto t0 = std::chrono::steady_clock::now();
  Res r = UNKNOWN;
  bool fp = false, bigq = false;
  for (Node *n : sl) if (n->isfp) fp = true;
  std::vector<uint64_t> m2 = model;
  Res own = UNKNOWN;
  // large or floating-point queries: first without what lies deep or cannot be bit-blasted (sound for unsatisfiability), then some assignments
  {
    std::unordered_map<Node *, int> depth; std::vector<Node *> q; bool big = false;
    for (Node *n : sl) if (depth.emplace(n, 0).second) q.push_back(n);
    for (size_t i = 0; i < q.size(); i++) { Node *n = q[i]; int d = depth[n] + 1; for (Node *x : {n->a, n->b, n->c}) if (x && depth.emplace(x, d).second) q.push_back(x); if (q.size() > 200000) break; }
    big = q.size() > 1200; bigq = q.size() > 3000;
    if (big || fp) for (int D : {-1, 10, 24, 1000000}) {
      if (D == 1000000 && !fp) break;
      std::unordered_map<Node *, char> cut;
      if (D < 0) { // an equation to be refuted: whatever both sides share
        if (!fp || e->k != K_NOT || e->a->k != K_EQ) continue;
        std::unordered_map<Node *, char> side; std::vector<Node *> st;
        for (int s = 0; s < 2; s++) { st.push_back(s ? e->a->b : e->a->a); while (!st.empty()) { Node *n = st.back(); st.pop_back(); char &c = side[n]; if (c & (1 << s)) continue; c |= 1 << s; for (Node *x : {n->a, n->b, n->c}) if (x) st.push_back(x); } }
        for (auto &p : side) { Kind k = p.first->k; if (p.second == 3 && k != K_CONST && k != K_VAR && k != K_EXTRACT && k != K_CONCAT && k != K_ZEXT && k != K_SEXT && k != K_NOT) cut[p.first] = 1; else if (k >= K_FADD) cut[p.first] = 1; }
        if (cut.empty()) continue;
      }
      else for (Node *n : q) if (depth[n] > D || (n->k >= K_FADD)) cut[n] = 1;
      if (satRefuteAbstract(sl, cut, 3000)) { own = UNSAT; g_sst.bbcalls++; g_sst.abstracted++; if ((g_sst.bbcalls & 255) != 0 || q.size() > 3000) r = UNSAT; break; }
      if (q.size() < 200) break;
    }
    if (own == UNKNOWN && big) {
      std::unordered_map<Node *, char> seen; for (Node *n : sl) collectVars(n, vs, seen);
      uint64_t z = 0x9E3779B97F4A7C15ULL;
      for (int t = 0; t < 6 && r == UNKNOWN; t++) {
        std::vector<uint64_t> m = model; for (auto &v : vs) { if (m.size() <= v.first) m.resize(v.first + 1, 0); z ^= z << 13; z ^= z >> 7; z ^= z << 17; m[v.first] = z & maskw(v.second->w); }
        evalNewEpoch(); bool ok = true; for (Node *n : sl) if (!evalNode(n, m)) { ok = false; break; }
        if (ok) { own = r = SAT; m2 = m; g_sst.bbcalls++; }
      }
    }
  }
  if (!fp && own == UNKNOWN) {
    int b = satDecide(sl, m2, 20000);
    if (b == 0) own = UNSAT;
    else if (b == 1) {
      evalNewEpoch(); bool ok = true;
      for (Node *n : sl) if (!evalNode(n, m2)) { ok = false; break; }
      if (ok) own = SAT; else { fprintf(stderr, "symx: bit-blasted model does not satisfy the query under evaluation\n"); _Exit(95); }
    }
    if (own != UNKNOWN) g_sst.bbcalls++;
    // every 256th verdict is decided again by z3
    if (own != UNKNOWN && ((g_sst.bbcalls & 255) != 0 || bigq)) r = own;
  }
  std::vector<uint64_t> mown = m2; unsigned tmo = own != UNKNOWN ? 1500 : g_timeoutMs;
  if (r == UNKNOWN) g_sst.z3calls++;
  for (int attempt = 0; attempt < 2 && r == UNKNOWN; attempt++) {
    if (fp && attempt == 0) continue;
    Z3_solver s = attempt == 0 ? Z3_mk_simple_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, fp ? "QF_FPBV" : "QF_BV"));
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), attempt == 0 ? std::min(300u, tmo) : tmo);
    Z3_solver_set_params(C, s, p);
    for (Node *n : sl) Z3_solver_assert(C, s, tz(n));
    Z3_lbool lb = Z3_solver_check(C, s);
    if (lb == Z3_L_FALSE) r = UNSAT;
    else if (lb == Z3_L_TRUE) {
      Z3_model zm = Z3_solver_get_model(C, s);
      Z3_model_inc_ref(C, zm);
      std::unordered_map<Node *, char> seen; vs.clear();
      for (Node *n : sl) collectVars(n, vs, seen);
      for (auto &v : vs) {
        Z3_ast out = nullptr; uint64_t x = 0;
        if (Z3_model_eval(C, zm, tz(v.second), true, &out) && out) {
          Z3_inc_ref(C, out);
          if (v.second->w == 1) x = Z3_get_bool_value(C, out) == Z3_L_TRUE;
          else Z3_get_numeral_uint64(C, out, &x);
          Z3_dec_ref(C, out);
        }
        if (m2.size() <= v.first) m2.resize(v.first + 1, 0);
        m2[v.first] = x;
      }
      Z3_model_dec_ref(C, zm);
      evalNewEpoch();
      bool ok = true;
      for (Node *n : sl) if (!evalNode(n, m2)) { ok = false; break; }
      if (ok) r = SAT;
      else { fprintf(stderr, "symx: z3 model does not satisfy the query under evaluation (attempt %d)\n", attempt); }
    }
    Z3_params_dec_ref(C, p);
    Z3_solver_dec_ref(C, s);
  }
  if (own != UNKNOWN) {
    if (r == UNKNOWN) { r = own; m2 = mown; }
    else if (r != own) { fprintf(stderr, "symx: solver disagreement: bit-blaster %d, z3 %d\n", (int)own, (int)r); _Exit(95); }
    else if (r == own && own == SAT && mown != m2) {}
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  static const char *slow = getenv("SYMX_SLOW"); if (slow && dt > atof(slow)) { fprintf(stderr, "SLOW %.1fs fp=%d r=%d: %s\n", dt, fp, (int)r, exprStr(Val(e), 12).substr(0, 1500).c_str()); }
  g_sst.z3time += dt; if (dt > g_sst.maxq) g_sst.maxq = dt;
  if (!g_dumpDir.empty() && r != UNKNOWN && ((g_sst.z3calls + g_sst.bbcalls) & (g_sst.z3calls + g_sst.bbcalls - 1)) == 0) {
    char fn[512]; snprintf(fn, 512, "%s/q%d_%llu_%s.smt2", g_dumpDir.c_str(), (int)g_sst.maxq, (unsigned long long)(h & 0xffffffff), r == SAT ? "sat" : "unsat");
    std::string t = smt2Of(sl);
    if (FILE *f = fopen(fn, "w")) { fputs(t.c_str(), f); fclose(f); }
  }
  if (r == UNKNOWN) { g_sst.unknowns++; return r; }
  if (r == SAT) { recent.push_front(m2); if (recent.size() > 12) recent.pop_back(); }
  return finish(r, &m2);
}
