#include <unordered_set>
// Symbolic executor core: states, memory, forking, exceptions, builtins.
#include "exec.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cerrno>
#include <algorithm>
#include <chrono>
#include <functional>
#include <deque>
#include <cstdarg>

Module *g_mod; Shared *g_sh; Options g_opt;
static uint8_t *g_covLoc, *g_covFn;
static std::deque<State *> pending;
static State *S;              // current state
static bool dead;             // current state ended
static Node UNINIT_;          
static uint64_t localInsts, localStates;
static std::chrono::steady_clock::time_point t_start;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t_start).count(); }
static std::string ssprintf(const char *f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// ---------- memory ----------
static Obj *newObj(ObjKind k, uint64_t size, bool uninit) {
  Obj *o = (Obj *)calloc(1, sizeof(Obj)); o->ref = 1; o->kind = k; o->size = size;
  o->d = (uint8_t *)calloc(1, size ? size : 1);
  if (uninit && size) { o->f = (uint8_t *)malloc(size); memset(o->f, 1, size); }
  return o;
}
static void unref(Obj *o) { if (--o->ref == 0) { free(o->d); free(o->f); free(o->s); free(o); } }
static Obj *cloneObj(const Obj *o) {
  Obj *n = (Obj *)malloc(sizeof(Obj)); *n = *o; n->ref = 1;
  if (o->d) { n->d = (uint8_t *)malloc(o->size ? o->size : 1); memcpy(n->d, o->d, o->size); }
  if (o->f) { n->f = (uint8_t *)malloc(o->size); memcpy(n->f, o->f, o->size); }
  if (o->s) { n->s = (Node **)malloc(o->size * sizeof(Node *)); memcpy(n->s, o->s, o->size * sizeof(Node *)); }
  return n;
}
static void unrefChunk(Chunk *c) { if (--c->ref == 0) { for (int i = 0; i < 64; i++) if (c->o[i]) unref(c->o[i]); free(c); } }
Mem::~Mem() { for (Chunk *c : ch) if (c) unrefChunk(c); }
static Chunk *wrChunk(Mem &m, uint64_t k) {
  if (k >= m.ch.size()) m.ch.resize(k + 16, nullptr);
  Chunk *c = m.ch[k];
  if (!c) { c = (Chunk *)calloc(1, sizeof(Chunk)); c->ref = 1; return m.ch[k] = c; }
  if (c->ref > 1) { Chunk *n = (Chunk *)malloc(sizeof(Chunk)); *n = *c; n->ref = 1; for (int i = 0; i < 64; i++) if (n->o[i]) n->o[i]->ref++; c->ref--; return m.ch[k] = n; }
  return c;
}
Obj *Mem::wr(uint64_t id) {
  Chunk *c = wrChunk(*this, id >> 6); Obj *&o = c->o[id & 63];
  if (o && o->ref > 1) { Obj *n = cloneObj(o); o->ref--; o = n; }
  return o;
}
void Mem::put(uint64_t id, Obj *o) { Chunk *c = wrChunk(*this, id >> 6); if (c->o[id & 63]) unref(c->o[id & 63]); c->o[id & 63] = o; }

static uint64_t allocObj(ObjKind k, uint64_t size, bool uninit, int hk = 0) {
  uint64_t id = S->nextObj++; Obj *o = newObj(k, size, uninit); o->hk = hk; S->mem.put(id, o); return (id << 32) + OBJ_OFF;
}

// ---------- reporting ----------
static Frame &F() { return S->th[S->cur].fr.back(); }
static Thread &T() { return S->th[S->cur]; }
static std::string where(int maxd = 12) {
  std::string r; auto &fr = T().fr; int n = 0;
  for (int i = fr.size() - 1; i >= 0 && n < maxd; i--, n++) {
    Frame &f = fr[i]; if (f.block < 0 || f.block >= (int)f.fn->blocks.size() || f.ip >= (int)f.fn->blocks[f.block].insts.size()) continue;
    auto &L = g_mod->locs[f.fn->blocks[f.block].insts[f.ip].loc]; std::string p = f.fn->pretty; if (p.size() > 90) p = p.substr(0, 90);
    r += "  at " + p + " (" + L.first + ":" + std::to_string(L.second) + ")\n";
  }
  return r;
}
static std::string whereTop() { auto &fr = T().fr; if (fr.empty()) return ""; Frame &f = fr.back(); if (f.ip >= (int)f.fn->blocks[f.block].insts.size()) return f.fn->name; auto &L = g_mod->locs[f.fn->blocks[f.block].insts[f.ip].loc]; size_t p = L.first.rfind('/'); return (p == std::string::npos ? L.first : L.first.substr(p + 1)) + ":" + std::to_string(L.second); }
static void inconclusive(const std::string &m) {
  int n = g_sh->incon++;
  if (n < 32) { snprintf(g_sh->inconMsg[n], 200, "%s", m.c_str()); }
  if (g_opt.verbose) fprintf(stderr, "symx: inconclusive: %s\n%s", m.c_str(), T().fr.empty() ? "" : where().c_str());
}
static std::string inputsOf(State &s, const std::vector<uint64_t> &model) {
  std::string r; evalNewEpoch();
  for (auto &i : s.in) r += ssprintf("%s %s %d %llu\n", i.kind ? "choice" : "val", i.name, i.w, (unsigned long long)evalVal(i.v, model));
  return r;
}
static void killState() { dead = true; }
static void violation(const std::string &kind, const std::string &msg, const std::vector<uint64_t> &model) {
  std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : whereTop()); uint64_t h = std::hash<std::string>()(key) | 1;
  for (int i = 0; i < 64; i++) { uint64_t z = 0; if (g_sh->violHash[i].load() == h) return; if (g_sh->violHash[i].compare_exchange_strong(z, h)) break; if (z == h) return; if (i == 63) return; }
  int k = g_sh->viol++;
  uint64_t zz = 0; g_sh->firstViolMs.compare_exchange_strong(zz, (uint64_t)(now() * 1000) + 1);
  std::string fn = ssprintf("%s/viol_%03d.txt", g_opt.outdir.c_str(), k);
  if (FILE *f = fopen((fn + ".tmp").c_str(), "w")) {
    fprintf(f, "entry %s\nkind %s\nmsg %s\nsite %s\ninputs\n%send\n", g_opt.entry.c_str(), kind.c_str(), msg.c_str(), whereTop().c_str(), inputsOf(*S, model).c_str());
    fprintf(f, "uninit %llu\n", (unsigned long long)S->uninit);
    fprintf(f, "sched"); for (int t : S->sched) fprintf(f, " %d", t); fprintf(f, "\nstack\n%s", where().c_str());
    fclose(f); rename((fn + ".tmp").c_str(), fn.c_str());
  }
  if (g_opt.verbose) fprintf(stderr, "symx: VIOLATION %s: %s\n%s", kind.c_str(), msg.c_str(), where().c_str());
  if (g_sh->viol >= g_opt.maxViol) g_sh->stop = 1;
}
static void violationKill(const std::string &kind, const std::string &msg) { violation(kind, msg, S->model); killState(); }
static void unmodelled(const std::string &m) { inconclusive("unmodelled: " + m + " @ " + whereTop()); g_sh->killed++; killState(); }

// ---------- constraints ----------
static void addPc(State *s, Val c) {
  if (c.isC()) return;
  Node *n = c.n;
  if (n->w == 1 && n->k == K_AND) { addPc(s, Val(n->a)); addPc(s, Val(n->b)); return; }
  if (n->k == K_NOT && n->a->k == K_OR) { addPc(s, bNot(Val(n->a->a))); addPc(s, bNot(Val(n->a->b))); return; }
  s->pc.push_back(n);
}
static int impliedQ(Val c) { // 1 true, 0 false, -1 unknown (syntactic)
  if (c.isC()) return c.c & 1;
  Val nc = bNot(c);
  for (size_t i = S->pc.size(); i-- > 0;) { if (S->pc[i] == c.n) return 1; if (S->pc[i] == nc.n) return 0; }
  if (c.n->k == K_AND) { int a = impliedQ(Val(c.n->a)), b = impliedQ(Val(c.n->b)); if (a == 1 && b == 1) return 1; if (a == 0 || b == 0) return 0; }
  if (c.n->k == K_NOT && c.n->a->k == K_OR) { int a = impliedQ(Val(c.n->a->a)), b = impliedQ(Val(c.n->a->b)); if (a == 0 && b == 0) return 1; if (a == 1 || b == 1) return 0; }
  return -1;
}
static uint64_t evalS(Val v) { if (v.isC()) return v.c; evalNewEpoch(); return evalNode(v.n, S->model); }
static State *forkState() { State *n = new State(*S); g_sh->forks++; localStates++; return n; }
// does the value of a branch condition really depend on uninitialised memory (for some inputs reaching it)?
static unsigned shadowVar(unsigned i) { for (uint32_t v : S->uninitVars) if (v == i) return i + 20000; return i; }
static void checkUninit(Val c) {
  if (c.isC() || S->uninitVars.empty() || !c.n->vs) return; bool any = false; for (uint32_t v : S->uninitVars) if (v / 64 < c.n->vs->n && (c.n->vs->w[v / 64] >> (v % 64) & 1)) any = true; if (!any) return;
  static std::unordered_set<std::string> done; std::string w = whereTop(); if (done.count(w)) return;
  Val d = substVars(c, shadowVar); Val x = mkBin(K_XOR, c, d, 1); std::vector<uint64_t> m2 = S->model;
  if (!x.isC() && solverCheck(S->pc, x, m2) == SAT) { done.insert(w); violation("uninit", "control flow depends on uninitialised memory", m2); }
}
static void stopSoon() { static unsigned n; if ((++n & 15) == 0) { uint64_t fv = g_sh->firstViolMs; if (fv && now() * 1000 - fv > 8000) g_sh->stop = 1; } if (g_sh->stop) killState(); }
// which way does a condition go; the other feasible side (if any) is queued and re-executes the current instruction
static int decide(Val c) {
  int q = impliedQ(c); if (q >= 0) return q;
  g_sh->symbr.fetch_add(1, std::memory_order_relaxed);
  bool b = evalS(c) & 1; Val other = b ? bNot(c) : c; std::vector<uint64_t> m2 = S->model;
  Res r = solverCheck(S->pc, other, m2);
  if (r == SAT) checkUninit(c);
  stopSoon();
  if (r == SAT) { State *n = forkState(); addPc(n, other); n->model.swap(m2); pending.push_back(n); addPc(S, b ? c : bNot(c)); }
  else if (r == UNKNOWN) { inconclusive("solver timeout on a branch @ " + whereTop()); addPc(S, b ? c : bNot(c)); }
  return b;
}
// can c be true? (no forking)
static Res feasible(Val c, std::vector<uint64_t> *mo = nullptr) {
  int q = impliedQ(c); if (q == 0) return UNSAT; if (q == 1) { if (mo) *mo = S->model; return SAT; }
  std::vector<uint64_t> m2 = S->model; if (evalS(c) & 1) { if (mo) *mo = m2; return SAT; }
  Res r = solverCheck(S->pc, c, m2); if (r == SAT && mo) mo->swap(m2); return r;
}
// n is known to be c on this path: registers that hold it, or a part of it that this determines, become constants
static void fixValue(Node *n, uint64_t c) {
  struct P { Node *n; uint64_t c; } ps[8]; int k = 0;
  for (; n && k < 8;) {
    if (n->k == K_CONST) break;
    ps[k++] = {n, c & maskw(n->w)};
    if (n->k == K_ZEXT || n->k == K_SEXT) { n = n->a; c &= maskw(n->w); }
    else if (n->k == K_CONCAT && n->b->k == K_CONST) { c >>= n->b->w; n = n->a; c &= maskw(n->w); }
    else if (n->k == K_CONCAT && n->a->k == K_CONST) { n = n->b; c &= maskw(n->w); }
    else if (n->k == K_ADD && n->b->k == K_CONST) { c = (c - n->b->v) & maskw(n->w); n = n->a; }
    else if (n->k == K_ADD && n->a->k == K_CONST) { c = (c - n->a->v) & maskw(n->w); n = n->b; }
    else break;
  }
  if (!k) return;
  for (Frame &f : T().fr) for (Val &r : f.r) if (!r.isC()) for (int i = 0; i < k; i++) if (r.n == ps[i].n) { r = Val(ps[i].c); break; }
}
// enumerate a value by forking
static uint64_t forkValue(Val v, unsigned w) {
  if (v.isC()) return v.c;
  uint64_t c = evalS(v); decide(mkCmp(K_EQ, v, Val(c), w)); if (!dead) fixValue(v.n, c); return c;
}
static Val freshVar(unsigned w) { return mkVar(S->nvars++, w); }

// ---------- memory access ----------
// 0 = resolved, 1 = re-execute later / dead
static const char *kindName(Obj *o) { return o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : o->kind == OK_EXC ? "exception" : "global"; }
static std::string badAccess(uint64_t a, uint64_t n, bool write, const char *&kind) {
  uint64_t id = a >> 32; Obj *o = S->mem.get(id);
  const char *rw = write ? "write" : "read"; kind = "memory";
  if (a < 4096) { return ssprintf("%s through a null pointer", rw); }
  if (!o) return id && id < S->nextObj ? ssprintf("%s of dead stack memory", rw) : ssprintf("%s through an invalid pointer", rw);
  if (o->freed) return ssprintf("%s after free", rw);
  if (write && o->ro) return "write to constant memory";
  return ssprintf("%s of %llu bytes outside a %llu-byte %s object", rw, (unsigned long long)n, (unsigned long long)o->size, kindName(o));
}
static bool okAt(uint64_t a, uint64_t n, bool write) {
  uint64_t id = a >> 32, off = (a & 0xffffffff) - OBJ_OFF; Obj *o = S->mem.get(id);
  return o && !o->freed && off <= o->size && n <= o->size - off && !(write && o->ro);
}
static bool resolve(Val addr, uint64_t n, bool write, uint64_t &id, Val &off) {
  if (addr.isC()) {
    id = addr.c >> 32; off = Val((addr.c & 0xffffffff) - OBJ_OFF);
    if (!okAt(addr.c, n, write)) { const char *k; std::string m = badAccess(addr.c, n, write, k); violationKill(k, m); return false; }
    return true;
  }
  uint64_t a = evalS(addr);
  if (!okAt(a, n, write)) { const char *k; std::string m = badAccess(a, n, write, k); violation(k, m, S->model);
    // continue with models that avoid this address, if any (a few times; the violation is recorded anyway)
    static uint64_t lastState, tries; if (lastState != S->steps) { lastState = S->steps; tries = 0; } if (++tries > 6) { killState(); return false; }
    Val ne = bNot(mkCmp(K_EQ, addr, Val(a), 64)); std::vector<uint64_t> m2; Res r = feasible(ne, &m2); if (r == SAT) { addPc(S, ne); S->model = m2; return resolve(addr, n, write, id, off); } killState(); return false; }
  id = a >> 32; Obj *o = S->mem.get(id); uint64_t base = (id << 32) + OBJ_OFF;
  off = mkBin(K_SUB, addr, Val(base), 64);
  Val inb = mkCmp(K_ULT, off, Val(o->size - n + 1), 64);
  std::vector<uint64_t> m2; Res r = feasible(bNot(inb), &m2);
  if (r == UNSAT) return true;
  if (r == UNKNOWN) { inconclusive("solver timeout on a bounds check @ " + whereTop()); addPc(S, inb); return true; }
  evalNewEpoch(); uint64_t a2 = evalVal(addr, m2);
  if (!okAt(a2, n, write)) { const char *k; std::string m = badAccess(a2, n, write, k); violation(k, m, m2); addPc(S, inb); return true; }
  decide(inb); return true; // another object: the other side re-executes
}
static std::string tiName(uint64_t a);
static Val rdByte(Obj *&o, uint64_t id, uint64_t p) {
  if (!o->f || o->f[p] == 0) return Val((uint64_t)o->d[p]);
  if (o->f[p] == 2) return Val(o->s[p]);
  if (o->kind == OK_GLOBAL && o->hk == 99) { unmodelled("read of external data " + tiName(id << 32)); return Val(0); }
  o = S->mem.wr(id); Val v = freshVar(8); S->uninit++; S->uninitVars.push_back(S->nvars - 1); o->f[p] = 2; if (!o->s) o->s = (Node **)calloc(o->size, sizeof(Node *)); o->s[p] = v.n; return v;
}
static void wrByte(Obj *o, uint64_t p, Val v) {
  if (v.isC()) { o->d[p] = (uint8_t)v.c; if (o->f) o->f[p] = 0; return; }
  if (!o->f) o->f = (uint8_t *)calloc(1, o->size);
  if (!o->s) o->s = (Node **)calloc(o->size, sizeof(Node *));
  o->f[p] = 2; o->s[p] = v.n;
}
static Val muxRead(Obj *&o, uint64_t id, Val idx, unsigned bits, uint64_t lo, uint64_t count, uint64_t start, uint64_t step) {
  if (bits == 0) return rdByte(o, id, start + lo * step);
  uint64_t half = 1ULL << (bits - 1);
  if (lo + half >= count) return muxRead(o, id, idx, bits - 1, lo, count, start, step);
  Val bit = mkExtract(idx, 64, bits - 1, 1);
  if (bit.isC()) return muxRead(o, id, idx, bits - 1, bit.c ? lo + half : lo, count, start, step);
  Val h = muxRead(o, id, idx, bits - 1, lo + half, count, start, step), l = muxRead(o, id, idx, bits - 1, lo, count, start, step);
  return mkIte(bit, h, l, 8);
}
static unsigned bitsFor(uint64_t c) { unsigned b = 0; while ((1ULL << b) < c) b++; return b; }
static bool symRange(Val off, uint64_t size, uint64_t n, uint64_t &start, uint64_t &step, uint64_t &count) {
  unsigned z = knownZeroLow(off, 64); step = 1; start = 0;
  if (off.n->k == K_ADD && (off.n->b->k == K_CONST || off.n->a->k == K_CONST)) { // c + x : x may be more aligned
    Node *cn = off.n->a->k == K_CONST ? off.n->a : off.n->b, *x = cn == off.n->a ? off.n->b : off.n->a; unsigned zx = knownZeroLow(Val(x), 64); if (zx > 16) zx = 16;
    if (zx > z) { step = 1ULL << zx; start = cn->v & (step - 1); if (start > size - n) return false; count = (size - n - start) / step + 1; return true; }
  }
  if (z > 16) z = 16; step = 1ULL << z; count = (size - n) / step + 1; return true;
}
static bool loadBytes(Val addr, uint64_t n, Val *out) {
  uint64_t id; Val off; if (!resolve(addr, n, false, id, off)) return false;
  if (dead) return false;
  Obj *o = S->mem.get(id);
  if (!off.isC()) {
    uint64_t start, step, count;
    if (!symRange(off, o->size, n, start, step, count)) { killState(); return false; }
    if (count == 1) off = Val(start);
    else if (count > g_opt.muxLimit) { uint64_t c = forkValue(off, 64); off = Val(c); }
    else {
      Val idx = start ? mkBin(K_SUB, off, Val(start), 64) : off; if (step > 1) idx = mkBin(K_LSHR, idx, Val((uint64_t)__builtin_ctzll(step)), 64);
      for (uint64_t k = 0; k < n; k++) out[k] = muxRead(o, id, idx, bitsFor(count), 0, count, start + k, step);
      return true;
    }
  }
  for (uint64_t k = 0; k < n; k++) out[k] = rdByte(o, id, off.c + k);
  return true;
}
static bool storeBytes(Val addr, uint64_t n, const Val *in) {
  uint64_t id; Val off; if (!resolve(addr, n, true, id, off)) return false;
  if (dead) return false;
  S->wr++;
  Obj *o = S->mem.wr(id);
  if (!off.isC()) {
    uint64_t start, step, count;
    if (!symRange(off, o->size, n, start, step, count)) { killState(); return false; }
    if (count == 1) off = Val(start);
    else if (count > std::min<uint64_t>(300, g_opt.muxLimit)) { uint64_t c = forkValue(off, 64); off = Val(c); o = S->mem.wr(id); }
    else {
      for (uint64_t i = 0; i < count; i++) {
        uint64_t p = start + i * step; Val c = mkCmp(K_EQ, off, Val(p), 64); if (c.isC() && !c.c) continue;
        for (uint64_t k = 0; k < n; k++) { Val old = rdByte(o, id, p + k); Val nv = mkIte(c, in[k], old, 8); wrByte(o, p + k, nv); }
      }
      return true;
    }
  }
  for (uint64_t k = 0; k < n; k++) wrByte(o, off.c + k, in[k]);
  return true;
}
static bool load(Val addr, unsigned w, Val &out) {
  unsigned n = (w + 7) / 8;
  if (addr.isC()) {
    uint64_t id = addr.c >> 32, off = (addr.c & 0xffffffff) - OBJ_OFF; Obj *o = S->mem.get(id);
    if (o && !o->freed && off <= o->size && n <= o->size - off) {
      bool conc = true; if (o->f) for (unsigned i = 0; i < n; i++) if (o->f[off + i]) { conc = false; break; }
      if (conc) { uint64_t v = 0; memcpy(&v, o->d + off, n); out = Val(v & maskw(w)); return true; }
    }
  }
  Val b[8]; if (!loadBytes(addr, n, b) || dead) return false;
  Val v = b[n - 1]; unsigned cw = 8;
  for (int i = n - 2; i >= 0; i--) { v = mkConcat(v, cw, b[i], 8); cw += 8; }
  if (cw > w) v = mkExtract(v, cw, 0, w);
  out = v; return true;
}
static bool store(Val addr, unsigned w, Val v) {
  unsigned n = (w + 7) / 8;
  if (addr.isC() && v.isC()) {
    uint64_t id = addr.c >> 32, off = (addr.c & 0xffffffff) - OBJ_OFF; Obj *o = S->mem.get(id);
    if (o && !o->freed && off <= o->size && n <= o->size - off && !o->ro) {
      o = S->mem.wr(id); S->wr++; memcpy(o->d + off, &v.c, n); if (o->f) memset(o->f + off, 0, n); return true;
    }
  }
  Val b[8]; Val x = (w & 7) ? mkZext(v, w, n * 8) : v;
  for (unsigned i = 0; i < n; i++) b[i] = n == 1 ? x : mkExtract(x, n * 8, i * 8, 8);
  return storeBytes(addr, n, b);
}
static bool memCopy(Val dst, Val src, uint64_t n, bool mv) {
  if (n == 0) return true;
  if (dst.isC() && src.isC()) {
    uint64_t si, di; Val so, dof; if (!resolve(src, n, false, si, so) || !resolve(dst, n, true, di, dof)) return false;
    if (!mv && si == di && dst.c != src.c && dst.c < src.c + n && src.c < dst.c + n) { violationKill("memory", "memcpy with overlapping regions"); return false; }
    S->wr++;
    Obj *d = S->mem.wr(di); Obj *s = S->mem.get(si); uint64_t a = so.c, b = dof.c;
    if (s->f && !d->f) d->f = (uint8_t *)calloc(1, d->size);
    if (s->s && !d->s) d->s = (Node **)calloc(d->size, sizeof(Node *));
    memmove(d->d + b, s->d + a, n);
    if (s->f) memmove(d->f + b, s->f + a, n); else if (d->f) memset(d->f + b, 0, n);
    if (s->s) memmove(d->s + b, s->s + a, n * sizeof(Node *));
    return true;
  }
  if (n > 65536) { unmodelled("large memcpy with a symbolic pointer"); return false; }
  std::vector<Val> t(n); if (!loadBytes(src, n, t.data())) return false;
  return storeBytes(dst, n, t.data());
}
static bool readCStr(Val a, std::string &out) {
  if (!a.isC()) a = Val(forkValue(a, 64));
  for (uint64_t i = 0; i < 65536; i++) { Val v; if (!load(Val(a.c + i), 8, v)) return false; if (!v.isC()) v = Val(forkValue(v, 8)); if (!v.c) return true; out += (char)v.c; }
  return false;
}

// ---------- control ----------
static uint64_t pseudoTi(const std::string &n) {
  auto it = g_mod->globByName.find(n); if (it != g_mod->globByName.end()) return g_mod->globals[it->second].addr;
  static std::map<std::string, uint64_t> m; auto i = m.find(n); if (i != m.end()) return i->second;
  uint64_t a = (0x40000000ULL + m.size()) << 16 | 0; a = ((uint64_t)(0x700000 + m.size()) << 32) + OBJ_OFF; m[n] = a; return a;
}
static std::string tiName(uint64_t a) {
  uint64_t i = (a >> 32) - 1; if (i < g_mod->globals.size()) return g_mod->globals[i].name;
  return "?";
}
static const std::map<std::string, std::string> stdBases = {
  {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
  {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
  {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
static bool tiMatch(uint64_t thrown, uint64_t want, int depth = 0) {
  if (thrown == want) return true; if (depth > 8) return false;
  std::string nt = tiName(thrown), nw = tiName(want); if (nt == nw && nt != "?") return true;
  auto it = stdBases.find(nt); if (it != stdBases.end()) return tiMatch(pseudoTi(it->second), want, depth + 1);
  uint64_t gi = (thrown >> 32) - 1; if (gi >= g_mod->globals.size() || g_mod->globals[gi].external) return false;
  auto &g = g_mod->globals[gi]; auto q = [&](unsigned off) { uint64_t v = 0; if (off + 8 <= g.bytes.size()) memcpy(&v, &g.bytes[off], 8); return v; };
  std::string vt = tiName(q(0));
  if (vt.find("__si_class_type_info") != std::string::npos) return tiMatch(q(16), want, depth + 1);
  if (vt.find("__vmi_class_type_info") != std::string::npos) { uint32_t n; memcpy(&n, &g.bytes[20], 4); for (uint32_t i = 0; i < n; i++) if (tiMatch(q(24 + 16 * i), want, depth + 1)) return true; }
  return false;
}
// addresses of the public subobjects of type 'want' in an object of dynamic type 'ti' at 'addr' (dynamic_cast)
static bool tiFind(uint64_t ti, uint64_t want, uint64_t addr, std::vector<uint64_t> &out, int depth = 0) {
  std::string nt = tiName(ti), nw = tiName(want); if (ti == want || (nt == nw && nt != "?")) { if (std::find(out.begin(), out.end(), addr) == out.end()) out.push_back(addr); return true; }
  if (depth > 8) return true;
  uint64_t gi = (ti >> 32) - 1; if (gi >= g_mod->globals.size() || g_mod->globals[gi].external) { if (tiMatch(ti, want)) out.push_back(addr); return true; }
  auto &g = g_mod->globals[gi]; auto q = [&](unsigned off) { uint64_t v = 0; if (off + 8 <= g.bytes.size()) memcpy(&v, &g.bytes[off], 8); return v; };
  std::string vt = tiName(q(0));
  if (vt.find("__si_class_type_info") != std::string::npos) return tiFind(q(16), want, addr, out, depth + 1);
  if (vt.find("__vmi_class_type_info") != std::string::npos) { uint32_t n; memcpy(&n, &g.bytes[20], 4);
    for (uint32_t i = 0; i < n; i++) { int64_t of = (int64_t)q(32 + 16 * i), off = of >> 8; if (!(of & 2)) continue;
      if (of & 1) { Val vp, vo; if (!load(Val(addr), 64, vp) || !vp.isC() || !load(Val(vp.c + off), 64, vo) || !vo.isC()) return false; off = (int64_t)vo.c; }
      if (!tiFind(q(24 + 16 * i), want, addr + off, out, depth + 1)) return false; } }
  return true;
}
static void popFrame() { Frame &f = F(); for (uint32_t a : f.allocas) S->mem.put(a, nullptr); if (f.freeExc) S->mem.put(f.freeExc, nullptr); T().fr.pop_back(); }
static void takeEdge(int e) {
  Frame &f = F(); Edge &E = f.fn->edges[e];
  if (!E.phis.empty()) {
    if (E.phis.size() == 1) { auto &p = E.phis[0]; f.r[p.first] = p.second.imm ? Val(p.second.v) : f.r[p.second.v]; }
    else { static std::vector<Val> t; t.clear(); for (auto &p : E.phis) t.push_back(p.second.imm ? Val(p.second.v) : f.r[p.second.v]); for (size_t i = 0; i < t.size(); i++) f.r[E.phis[i].first] = t[i]; }
  }
  f.block = E.target; f.ip = 0;
}
// does the path taken or the recorded trace depend on an uninitialised byte that was read?
static bool dependsOnUninit() {
  auto has = [&](Node *n) { if (!n || !n->vs) return false; for (uint32_t v : S->uninitVars) if (v / 64 < n->vs->n && (n->vs->w[v / 64] >> (v % 64) & 1)) return true; return false; };
  if (S->uninitVars.empty()) return false;
  for (auto c : S->pc) if (has(c)) return true;
  for (auto &t : S->tr) if (has(t.first.n)) return true;
  return false;
}
static void pathEnd(const char *how);
static void endAbort(const std::string &why) { // abnormal termination of the program
  if (S->allowAbort) { g_sh->aborts++; pathEnd("abort"); killState(); return; }
  violationKill("abort", why);
}
static bool lpadMatch(LpadInfo &L, uint64_t ti, uint64_t &sel) {
  for (uint64_t c : L.catches) { if (c == 0) { sel = 1; return true; } if (tiMatch(ti, c)) { sel = (c >> 16) & 0x7fffffff; return true; } }
  if (L.hasFilter) { sel = maskw(32); return true; }
  return false;
}
static LpadInfo *lpadOf(Frame &f) {
  Inst &I = f.fn->blocks[f.block].insts[f.ip]; if (I.op != O_CALL) return nullptr; CallInfo &ci = f.fn->calls[I.x]; if (!ci.invoke) return nullptr;
  Block &b = f.fn->blocks[f.fn->edges[ci.unwindEdge].target]; for (auto &x : b.insts) if (x.op == O_LPAD) return &f.fn->lpads[x.x]; return nullptr;
}
static void unwind(bool fromTopCall) {
  Thread &t = T(); uint64_t sel;
  bool found = false;
  for (int i = t.fr.size() - 1; i >= 0 && !found; i--) { if (t.fr[i].noAdvance && i != (int)t.fr.size() - 1 && false) break; LpadInfo *L = (i == (int)t.fr.size() - 1 && !fromTopCall) ? nullptr : lpadOf(t.fr[i]); if (L && lpadMatch(*L, t.cur.ti, sel)) found = true; if (t.fr[i].noAdvance && i > 0) { } }
  if (!found) { endAbort("uncaught exception " + tiName(t.cur.ti)); return; }
  bool first = true;
  while (true) {
    LpadInfo *L = (first && !fromTopCall) ? nullptr : lpadOf(F());
    first = false;
    if (L) {
      bool m = lpadMatch(*L, t.cur.ti, sel);
      if (m || L->cleanup) {
        if (!m) sel = 0;
        Frame &f = F(); Inst &I = f.fn->blocks[f.block].insts[f.ip]; int e = f.fn->calls[I.x].unwindEdge; takeEdge(e);
        S->kv["sel" + std::to_string(S->cur)] = sel; return;
      }
    }
    popFrame(); if (T().fr.empty()) { endAbort("uncaught exception"); return; }
  }
}
static void throwStd(const char *tiname) {
  uint64_t a = allocObj(OK_EXC, 64, false); T().cur = Exc{a, pseudoTi(tiname)}; unwind(true);
}
static void pushCall(Function *fn, const std::vector<Val> &args, uint32_t dst, int nret, bool noAdv) {
  if (T().fr.size() > 3000) { violationKill("nonterm", "recursion deeper than 3000 frames"); return; }
  Frame f; f.fn = fn; f.block = 0; f.ip = 0; f.dst = dst; f.nret = nret; f.noAdvance = noAdv; f.freeExc = 0; f.r.resize(fn->nslots);
  for (size_t i = 0; i < fn->argSlots.size() && i < args.size(); i++) f.r[fn->argSlots[i]] = args[i];
  g_covFn[fn->idx] = 1; T().fr.push_back(std::move(f));
}
static void advanceAfterCall() {
  Frame &f = F(); Inst &I = f.fn->blocks[f.block].insts[f.ip]; CallInfo &ci = f.fn->calls[I.x];
  if (ci.invoke) takeEdge(ci.normalEdge); else f.ip++;
}
static void setRet(const CallInfo &ci, Val v, unsigned k = 0) { if ((int)k < ci.nret) F().r[ci.dst + k] = v; }

static int sampleBudget() { return g_opt.nsamples; }
static void pathEnd(const char *how) {
  uint64_t n = ++g_sh->paths;
  bool pick = (n & (n - 1)) == 0 || (n * 2654435761u + g_opt.seed * 97) % 61 == 0;
  if (sampleBudget() >= 1000) pick = true;
  if (pick && g_sh->samples < sampleBudget() && S->th.size() == 1 && !dependsOnUninit()) {
    int k = g_sh->samples++; if (k < sampleBudget()) {
      std::string fn = ssprintf("%s/sample_%03d.txt", g_opt.outdir.c_str(), k);
      if (FILE *f = fopen(fn.c_str(), "w")) {
        fprintf(f, "entry %s\nkind %s\ninputs\n%send\ntrace", g_opt.entry.c_str(), how, inputsOf(*S, S->model).c_str());
        evalNewEpoch(); for (auto &t : S->tr) fprintf(f, " %llu", (unsigned long long)evalVal(t.first, S->model)); fprintf(f, "\n"); fclose(f);
      }
    }
  }
  if (g_opt.maxPaths && n >= g_opt.maxPaths) { inconclusive("path limit"); g_sh->stop = 1; }
}

// ---------- threads ----------
static bool runnable(State *s, int i) {
  Thread &t = s->th[i]; if (t.done) return false;
  if (t.joinTid >= 0) { if (!s->th[t.joinTid].done) return false; }
  if (t.blocked) { State *sv = S; S = s; Val v; uint64_t id = t.bAddr >> 32; Obj *o = s->mem.get(id); bool r = true; if (o && !o->freed) { load(Val(t.bAddr), t.bW, v); r = !(v.isC() && v.c == t.bVal); } S = sv; return r; }
  if (t.spin && t.spinWr == s->wr) return false;
  return true;
}
static int liveThreads(State *s) { int n = 0; for (auto &t : s->th) if (!t.done) n++; return n; }
// pick another thread; called when the current one cannot continue.
static void mustSwitch() {
  std::vector<int> r; for (int i = 0; i < (int)S->th.size(); i++) if (i != S->cur && runnable(S, i)) r.push_back(i);
  if (runnable(S, S->cur)) r.push_back(S->cur);
  { std::vector<int> q; for (int i : r) if (!S->th[i].spin) q.push_back(i); if (!q.empty()) r = q; } // fairness: a thread that announced that it spins goes after those that can work
  if (r.empty()) {
    bool all = true; for (auto &t : S->th) if (!t.done) all = false;
    if (all) { pathEnd("done"); killState(); return; }
    bool spin = false; for (auto &t : S->th) if (!t.done && t.spin) spin = true;
    violationKill(spin ? "livelock" : "deadlock", spin ? "every unfinished thread spins forever" : "no unfinished thread can run"); return;
  }
  for (size_t i = 1; i < r.size(); i++) { State *n = forkState(); n->cur = r[i]; n->th[r[i]].blocked = false; n->th[r[i]].joinTid = -1; n->th[r[i]].spin = false; n->skipYield = true; n->sched.push_back(r[i]); pending.push_back(n); }
  S->cur = r[0]; T().blocked = false; T().joinTid = -1; T().spin = false; S->skipYield = true; S->sched.push_back(r[0]);
}
static void yieldPoint() {
  if (S->th.size() == 1 || T().atomic) return;
  if (S->skipYield) { S->skipYield = false; return; }
  if (S->preempts >= g_opt.preempt) return;
  for (int i = 0; i < (int)S->th.size(); i++) if (i != S->cur && runnable(S, i)) {
    State *n = forkState(); n->cur = i; n->th[i].blocked = false; n->th[i].joinTid = -1; n->th[i].spin = false; n->preempts++; n->skipYield = true; n->sched.push_back(i); pending.push_back(n);
  }
}
// plain accesses that other threads may see: everything but the stack, or only the objects a harness named with symx_watch
static bool sharedAccess(const Val &a) {
  if (!a.isC()) return true;
  if (!S->watch.empty()) { for (auto w : S->watch) if (w == a.c >> 32) return true; return false; }
  Obj *o = S->mem.get(a.c >> 32); return !o || o->kind != OK_STACK;
}
#include "asm_x86.inc"
#include "builtins.inc"

// ---------- main interpreter ----------
static void execCall(const Inst &I) {
  Frame &f = F(); CallInfo &ci = f.fn->calls[I.x];
  Val cv = ci.callee.imm ? Val(ci.callee.v) : f.r[ci.callee.v];
  int fi = ci.fnIdx;
  if (!ci.direct) {
    if (!cv.isC()) cv = Val(forkValue(cv, 64));
    auto it = g_mod->fnByAddr.find(cv.c);
    if (it == g_mod->fnByAddr.end()) { violationKill("memory", cv.c < 4096 ? "call through a null pointer" : "call through an invalid pointer"); return; }
    fi = it->second;
  }
  Function *fn = g_mod->fns[fi];
  static std::vector<Val> args; args.clear();
  for (auto &o : ci.args) args.push_back(o.imm ? Val(o.v) : f.r[o.v]);
  if (fn->builtin >= 0) {
    Val keep[4]; int r = callBuiltin(fn, ci, args);
    if (r == 0 && !dead) advanceAfterCall();
    return;
  }
  if (!fn->defined) { unmodelled("call to " + fn->name); return; }
  pushCall(fn, args, ci.dst, ci.nret, false);
}

static void stepLoop() { // run S until it ends or its instruction quantum expires
  uint64_t quantum = 20000;
  while (!dead) {
    Frame *fp = &F();
    const Inst &I = fp->fn->blocks[fp->block].insts[fp->ip];
    localInsts++; S->steps++;
    if (S->steps > g_opt.maxSteps) { if (g_opt.verbose) fprintf(stderr, "op %d blk %d ip %d\n", (int)I.op, fp->block, fp->ip); violationKill("nonterm", "step limit exceeded"); return; }
    if (--quantum == 0) return;
    g_covLoc[I.loc] = 1;
    auto &r = fp->r;
    auto V = [&](const Opnd &o) -> Val { return o.imm ? Val(o.v) : r[o.v]; };
    switch (I.op) {
    case O_BIN: {
      Val a = V(I.a), b = V(I.b);
      if (I.kind == K_UDIV || I.kind == K_SDIV || I.kind == K_UREM || I.kind == K_SREM) {
        Val z = mkCmp(K_EQ, b, Val(0), I.w);
        if (!(z.isC() && !z.c)) {
          std::vector<uint64_t> m; Res q = feasible(z, &m);
          if (q == SAT) { violation("arith", "division by zero", m); if (feasible(bNot(z), &m) != SAT) { killState(); return; } addPc(S, bNot(z)); S->model = m; }
          else if (q == UNKNOWN) inconclusive("solver timeout on a division check");
        }
        if ((I.kind == K_SDIV || I.kind == K_SREM) && I.w >= 32) {
          Val ov = bAnd(mkCmp(K_EQ, a, Val(1ULL << (I.w - 1)), I.w), mkCmp(K_EQ, b, Val(maskw(I.w)), I.w));
          if (!(ov.isC() && !ov.c)) { std::vector<uint64_t> m; if (feasible(ov, &m) == SAT) { violation("arith", "signed division overflow", m); if (feasible(bNot(ov), &m) != SAT) { killState(); return; } addPc(S, bNot(ov)); S->model = m; } }
        }
      }
      if (a.isC() && b.isC()) {
        uint64_t m = maskw(I.w);
        switch (I.kind) {
        case K_ADD: r[I.dst] = Val((a.c + b.c) & m); break; case K_SUB: r[I.dst] = Val((a.c - b.c) & m); break; case K_AND: r[I.dst] = Val(a.c & b.c); break; case K_OR: r[I.dst] = Val(a.c | b.c); break; case K_XOR: r[I.dst] = Val(a.c ^ b.c); break; case K_MUL: r[I.dst] = Val((a.c * b.c) & m); break;
        default: r[I.dst] = mkBin((Kind)I.kind, a, b, I.w);
        }
      } else r[I.dst] = mkBin((Kind)I.kind, a, b, I.w);
      fp->ip++; break;
    }
    case O_CMP: r[I.dst] = mkCmp((Kind)I.kind, V(I.a), V(I.b), I.w); fp->ip++; break;
    case O_NE: r[I.dst] = bNot(mkCmp(K_EQ, V(I.a), V(I.b), I.w)); fp->ip++; break;
    case O_ULE: r[I.dst] = bNot(mkCmp(K_ULT, V(I.b), V(I.a), I.w)); fp->ip++; break;
    case O_SLE: r[I.dst] = bNot(mkCmp(K_SLT, V(I.b), V(I.a), I.w)); fp->ip++; break;
    case O_FCMP: r[I.dst] = mkFCmp(I.kind, V(I.a), V(I.b), I.w); fp->ip++; break;
    case O_FBIN: r[I.dst] = mkFBin((Kind)I.kind, V(I.a), V(I.b), I.w); fp->ip++; break;
    case O_FUN: r[I.dst] = mkFUn((Kind)I.kind, V(I.a), I.w, I.b.v); fp->ip++; break;
    case O_FCVT: r[I.dst] = mkFCvt((Kind)I.kind, V(I.a), I.w2, I.w); fp->ip++; break;
    case O_FNEG: r[I.dst] = mkBin(K_XOR, V(I.a), Val(1ULL << (I.w - 1)), I.w); fp->ip++; break;
    case O_FABS: r[I.dst] = mkBin(K_AND, V(I.a), Val(maskw(I.w - 1)), I.w); fp->ip++; break;
    case O_COPYSIGN: r[I.dst] = mkBin(K_OR, mkBin(K_AND, V(I.a), Val(maskw(I.w - 1)), I.w), mkBin(K_AND, V(I.b), Val(1ULL << (I.w - 1)), I.w), I.w); fp->ip++; break;
    case O_FMINMAX: {
      Val a = V(I.a), b = V(I.b); Val an = mkFCmp(8, a, a, I.w), bn = mkFCmp(8, b, b, I.w); // 8 = uno
      Val lt = mkFCmp(4, a, b, I.w); // olt
      Val pick = I.kind ? mkIte(lt, b, a, I.w) : mkIte(lt, a, b, I.w);
      r[I.dst] = mkIte(an, b, mkIte(bn, a, pick, I.w), I.w); fp->ip++; break;
    }
    case O_FMA: r[I.dst] = mkFBin(K_FADD, mkFBin(K_FMUL, V(I.a), V(I.b), I.w), V(I.c), I.w); fp->ip++; break; // fmuladd: unfused on the baseline x86-64 target
    case O_ZEXT: r[I.dst] = mkZext(V(I.a), I.w2, I.w); fp->ip++; break;
    case O_SEXT: r[I.dst] = mkSext(V(I.a), I.w2, I.w); fp->ip++; break;
    case O_TRUNC: r[I.dst] = mkExtract(V(I.a), I.w2, 0, I.w); fp->ip++; break;
    case O_SELECT: { Val c = V(I.a); r[I.dst] = c.isC() ? ((c.c & 1) ? V(I.b) : V(I.c)) : mkIte(c, V(I.b), V(I.c), I.w); fp->ip++; break; }
    case O_MOV: r[I.dst] = V(I.a); fp->ip++; break;
    case O_LOAD: {
      if (S->th.size() > 1 && (I.flag || g_opt.allMem)) { Val a = V(I.a); if (I.flag || sharedAccess(a)) yieldPoint(); }
      Val v; if (!load(V(I.a), I.w, v)) break; F().r[I.dst] = v; F().ip++; break;
    }
    case O_STORE: {
      if (S->th.size() > 1 && (I.flag || g_opt.allMem)) { Val a = V(I.a); if (I.flag || sharedAccess(a)) yieldPoint(); }
      if (!store(V(I.a), I.w, V(I.b))) break; F().ip++; break;
    }
    case O_ALLOCA: {
      Val n = V(I.a); if (!n.isC()) { n = Val(forkValue(n, 64)); if (dead) break; }
      if (n.c > (1ULL << 30)) { violationKill("memory", "huge stack allocation"); break; }
      uint64_t a = allocObj(OK_STACK, n.c, true); fp->allocas.push_back(a >> 32); r[I.dst] = Val(a); fp->ip++; break;
    }
    case O_BR: takeEdge(I.x); break;
    case O_CBR: { Val c = V(I.a); if (c.isC()) { takeEdge((c.c & 1) ? I.x : I.y); break; } int d = decide(c); if (dead) break; takeEdge(d ? I.x : I.y); break; }
    case O_SWITCH: {
      Val c = V(I.a); SwitchInfo &si = fp->fn->switches[I.x];
      if (!c.isC()) {
        uint64_t mv = evalS(c); bool isCase = false; for (auto &k : si.cases) if (k.first == mv) isCase = true;
        if (isCase) { if (decide(mkCmp(K_EQ, c, Val(mv), I.w))) c = Val(mv); else break; }
        else { Val any = Val(0); for (auto &k : si.cases) any = bOr(any, mkCmp(K_EQ, c, Val(k.first), I.w)); int d = decide(any); if (dead) break; if (!d) { takeEdge(si.def); break; } c = Val(forkValue(c, I.w)); if (dead) break; }
      }
      int e = si.def; for (auto &k : si.cases) if (k.first == c.c) { e = k.second; break; }
      takeEdge(e); break;
    }
    case O_RET: {
      Val v[8]; int n = std::min<int>(I.x, 8); for (int i = 0; i < n; i++) v[i] = r[I.a.v + i];
      uint32_t dst = fp->dst; int nret = fp->nret; bool na = fp->noAdvance; popFrame();
      if (T().fr.empty()) { T().done = true; if (S->cur == 0 && liveThreads(S) == 0) { pathEnd("done"); killState(); return; } if (liveThreads(S) == 0) { pathEnd("done"); killState(); return; } mustSwitch(); break; }
      if (na) break;
      for (int i = 0; i < n && i < nret; i++) F().r[dst + i] = v[i];
      advanceAfterCall(); break;
    }
    case O_CALL: execCall(I); break;
    case O_LPAD: { uint64_t sel = S->kv["sel" + std::to_string(S->cur)]; r[I.dst] = Val(T().cur.obj); r[I.dst + 1] = Val(sel); fp->ip++; break; }
    case O_RESUME: unwind(false); break;
    case O_UNREACH: if (I.x == 1) endAbort("trap: undefined behaviour detected"); else endAbort("unreachable code reached"); break;
    case O_ASM: execAsm(I); break;
    case O_ATOMICRMW: {
      yieldPoint(); Val old; Val addr = V(I.a); if (!load(addr, I.w, old)) break; Val x = F().r.empty() ? Val(0) : (I.b.imm ? Val(I.b.v) : F().r[I.b.v]); Val nv;
      switch (I.kind) { case 0: nv = x; break; case 1: nv = mkBin(K_ADD, old, x, I.w); break; case 2: nv = mkBin(K_SUB, old, x, I.w); break; case 3: nv = mkBin(K_AND, old, x, I.w); break; case 4: nv = mkNot(mkBin(K_AND, old, x, I.w), I.w); break; case 5: nv = mkBin(K_OR, old, x, I.w); break; case 6: nv = mkBin(K_XOR, old, x, I.w); break;
      case 7: nv = mkIte(mkCmp(K_SLT, old, x, I.w), x, old, I.w); break; case 8: nv = mkIte(mkCmp(K_SLT, old, x, I.w), old, x, I.w); break; case 9: nv = mkIte(mkCmp(K_ULT, old, x, I.w), x, old, I.w); break; case 10: nv = mkIte(mkCmp(K_ULT, old, x, I.w), old, x, I.w); break; default: unmodelled("atomicrmw"); }
      if (dead || !store(addr, I.w, nv)) break; F().r[I.dst] = old; F().ip++; break;
    }
    case O_CMPXCHG: {
      yieldPoint(); Val old, addr = V(I.a), e = V(I.b), n = V(I.c); if (!load(addr, I.w, old)) break; Val eq = mkCmp(K_EQ, old, e, I.w);
      if (!store(addr, I.w, mkIte(eq, n, old, I.w))) break; F().r[I.dst] = old; F().r[I.dst + 1] = eq; F().ip++; break;
    }
    case O_FENCE: fp->ip++; break;
    case O_OVF: {
      Val a = V(I.a), b = V(I.b); unsigned w = I.w; Val res, ov;
      Val sa = mkExtract(a, w, w - 1, 1), sb = mkExtract(b, w, w - 1, 1);
      switch (I.kind) {
      case 0: res = mkBin(K_ADD, a, b, w); ov = mkCmp(K_ULT, res, a, w); break;
      case 1: { res = mkBin(K_ADD, a, b, w); Val sr = mkExtract(res, w, w - 1, 1); ov = bAnd(bNot(mkBin(K_XOR, sa, sb, 1)), mkBin(K_XOR, sa, sr, 1)); break; }
      case 2: res = mkBin(K_SUB, a, b, w); ov = mkCmp(K_ULT, a, b, w); break;
      case 3: { res = mkBin(K_SUB, a, b, w); Val sr = mkExtract(res, w, w - 1, 1); ov = bAnd(mkBin(K_XOR, sa, sb, 1), mkBin(K_XOR, sa, sr, 1)); break; }
      case 4: { res = mkBin(K_MUL, a, b, w); if (w <= 32) { Val f = mkBin(K_MUL, mkZext(a, w, 2 * w), mkZext(b, w, 2 * w), 2 * w); ov = bNot(mkCmp(K_EQ, mkExtract(f, 2 * w, w, w), Val(0), w)); }
        else if (a.isC() && b.isC()) ov = Val((uint64_t)__builtin_mul_overflow_p(a.c, b.c, (uint64_t)0));
        else { Val c = a.isC() ? a : b, x = a.isC() ? b : a; if (!c.isC()) { unmodelled("64-bit symbolic umul.with.overflow"); break; } ov = c.c == 0 ? Val(0) : mkCmp(K_ULT, Val(~0ULL / c.c), x, 64); } break; }
      case 5: { res = mkBin(K_MUL, a, b, w); if (w <= 32) { Val f = mkBin(K_MUL, mkSext(a, w, 2 * w), mkSext(b, w, 2 * w), 2 * w); ov = bNot(mkCmp(K_EQ, f, mkSext(res, w, 2 * w), 2 * w)); }
        else if (a.isC() && b.isC()) ov = Val((uint64_t)__builtin_mul_overflow_p((int64_t)a.c, (int64_t)b.c, (int64_t)0));
        else { Val c = a.isC() ? a : b, x = a.isC() ? b : a; if (!c.isC()) { unmodelled("64-bit symbolic smul.with.overflow"); break; } int64_t k = (int64_t)c.c; if (k == 0 || k == 1) ov = Val(0); else if (k == -1) ov = mkCmp(K_EQ, x, Val(1ULL << 63), 64); else { int64_t hi = k > 0 ? INT64_MAX / k : INT64_MIN / k, lo = k > 0 ? INT64_MIN / k : INT64_MAX / k; ov = bOr(mkCmp(K_SLT, Val((uint64_t)hi), x, 64), mkCmp(K_SLT, x, Val((uint64_t)lo), 64)); } } break; }
      }
      if (dead) break;
      r[I.dst] = res; r[I.dst + 1] = ov; fp->ip++; break;
    }
    case O_CTPOP: { Val a = V(I.a), s = Val(0); if (a.isC()) s = Val((uint64_t)__builtin_popcountll(a.c)); else for (unsigned i = 0; i < I.w; i++) s = mkBin(K_ADD, s, mkZext(mkExtract(a, I.w, i, 1), 1, I.w), I.w); r[I.dst] = s; fp->ip++; break; }
    case O_CTLZ: { Val a = V(I.a), s = Val(I.w); for (unsigned i = 0; i < I.w; i++) s = mkIte(mkExtract(a, I.w, i, 1), Val((uint64_t)(I.w - 1 - i)), s, I.w); r[I.dst] = s; fp->ip++; break; }
    case O_CTTZ: { Val a = V(I.a), s = Val(I.w); for (int i = I.w - 1; i >= 0; i--) s = mkIte(mkExtract(a, I.w, i, 1), Val((uint64_t)i), s, I.w); r[I.dst] = s; fp->ip++; break; }
    case O_BSWAP: { Val a = V(I.a); Val x = mkExtract(a, I.w, 0, 8); unsigned cw = 8; for (unsigned i = 8; i < I.w; i += 8) { x = mkConcat(x, cw, mkExtract(a, I.w, i, 8), 8); cw += 8; } r[I.dst] = x; fp->ip++; break; }
    case O_FSHL: case O_FSHR: {
      Val a = V(I.a), b = V(I.b), s = V(I.c); unsigned w = I.w;
      if (s.isC()) { unsigned k = s.c % w; if (I.op == O_FSHR) k = k ? w - k : 0; Val x; if (k == 0) x = I.op == O_FSHL ? a : b; else x = mkBin(K_OR, mkBin(K_SHL, a, Val((uint64_t)k), w), mkBin(K_LSHR, b, Val((uint64_t)(w - k)), w), w); r[I.dst] = x; }
      else { Val k = mkBin(K_AND, s, Val((uint64_t)(w - 1)), w); Val nk = mkBin(K_SUB, Val((uint64_t)w), k, w); Val l, h; if (I.op == O_FSHL) { h = mkBin(K_SHL, a, k, w); l = mkBin(K_LSHR, b, nk, w); } else { h = mkBin(K_SHL, a, nk, w); l = mkBin(K_LSHR, b, k, w); } r[I.dst] = mkBin(K_OR, h, l, w); }
      fp->ip++; break;
    }
    case O_SATSUB: { Val a = V(I.a), b = V(I.b); r[I.dst] = mkIte(mkCmp(K_ULT, a, b, I.w), Val(0), mkBin(K_SUB, a, b, I.w), I.w); fp->ip++; break; }
    case O_SATADD: { Val a = V(I.a), b = V(I.b), s = mkBin(K_ADD, a, b, I.w); r[I.dst] = mkIte(mkCmp(K_ULT, s, a, I.w), Val(maskw(I.w)), s, I.w); fp->ip++; break; }
    case O_MEMCPY: {
      Val n = V(I.c); if (!n.isC()) { n = Val(forkValue(n, I.w)); if (dead) break; }
      if (!memCopy(V(I.a), V(I.b), n.c, I.flag)) break; F().ip++; break;
    }
    case O_MEMSET: {
      Val n = V(I.c); if (!n.isC()) { n = Val(forkValue(n, I.w)); if (dead) break; }
      if (n.c) { Val a = V(I.a), b = V(I.b); uint64_t id; Val off; if (!resolve(a, n.c, true, id, off)) break; if (off.isC() && b.isC()) { Obj *o = S->mem.wr(id); S->wr++; memset(o->d + off.c, (int)b.c, n.c); if (o->f) memset(o->f + off.c, 0, n.c); } else { std::vector<Val> t(n.c, b); if (!storeBytes(a, n.c, t.data())) break; } }
      F().ip++; break;
    }
    case O_BYVAL: { uint64_t a = allocObj(OK_STACK, I.b.v, true); fp->allocas.push_back(a >> 32); if (!memCopy(Val(a), V(I.a), I.b.v, false)) break; F().r[I.dst] = Val(a); F().ip++; break; }
    case O_UNSUP: unmodelled("IR construct: " + fp->fn->unsup[I.x]); break;
    }
  }
}

static void flushStats() {
  static SolverStats last; static uint64_t li, ls;
  g_sh->queries += g_sst.queries - last.queries; g_sh->z3calls += g_sst.z3calls - last.z3calls; g_sh->bbcalls += g_sst.bbcalls - last.bbcalls; g_sh->cacheHits += g_sst.cacheHits - last.cacheHits; g_sh->modelHits += g_sst.modelHits - last.modelHits; g_sh->unknowns += g_sst.unknowns - last.unknowns;
  g_sh->z3us += (uint64_t)((g_sst.z3time - last.z3time) * 1e6); uint64_t mq = g_sst.maxq * 1e6; uint64_t cur = g_sh->maxqus; while (mq > cur && !g_sh->maxqus.compare_exchange_weak(cur, mq)) {}
  g_sh->insts += localInsts - li; g_sh->states += localStates - ls; li = localInsts; ls = localStates; last = g_sst;
}
static bool inRoot = true;
static void maybeSplit() {
  if (pending.size() < 2) return;
  int a = g_sh->active.load();
  if (a >= g_opt.procs) return;
  if (!g_sh->active.compare_exchange_strong(a, a + 1)) return;
  flushStats(); fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { g_sh->active--; return; }
  size_t h = pending.size() / 2;
  // child takes every second of the oldest states
  if (p == 0) { inRoot = false; g_sh->procs++; std::deque<State *> mine; for (size_t i = 0; i < pending.size(); i++) if (i % 2 == 0) mine.push_back(pending[i]); pending.swap(mine); delete S; S = nullptr; dead = true; }
  else { std::deque<State *> mine; for (size_t i = 0; i < pending.size(); i++) if (i % 2) mine.push_back(pending[i]); else delete pending[i]; pending.swap(mine); }
  (void)h;
}
static void loop() {
  double lastFlush = 0;
  while (true) {
    if (!S) { if (pending.empty()) break; S = pending.back(); pending.pop_back(); dead = false; }
    stepLoop();
    if (dead) { delete S; S = nullptr; }
    double t = now();
    if (t - lastFlush > 0.2) { lastFlush = t; flushStats();
      if (t > g_opt.maxTime) { if (!g_sh->stop.exchange(1)) inconclusive(ssprintf("time budget of %.0f s used up", g_opt.maxTime)); }
      uint64_t fv = g_sh->firstViolMs; if (fv && t * 1000 - fv > 8000) g_sh->stop = 1;
    }
    if (g_sh->stop) break;
    if (g_sh->active < g_opt.procs && pending.size() >= 2) maybeSplit();
  }
  flushStats();
}
static void onCrash(int) { _exit(96); }
int symxRun() {
  t_start = std::chrono::steady_clock::now();
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_covLoc = (uint8_t *)mmap(nullptr, g_mod->locs.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_covFn = (uint8_t *)mmap(nullptr, g_mod->fns.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  solverInit();
  bindBuiltins();
  auto it = g_mod->fnByName.find(g_opt.entry);
  if (it == g_mod->fnByName.end() || !g_mod->fns[it->second]->defined) { fprintf(stderr, "symx: no entry %s\n", g_opt.entry.c_str()); return 3; }
  S = new State; S->nextObj = g_mod->globals.size() + 1; S->th.resize(1);
  for (auto &g : g_mod->globals) { auto known = [](const std::string &n) { return n.compare(0, 3, "_ZT") == 0 || n.compare(0, 4, "_ZSt") == 0 || n == "stderr" || n == "stdout" || n == "stdin" || n == "__dso_handle" || n == "environ"; };
    Obj *o = newObj(OK_GLOBAL, g.size, g.external && !known(g.name)); if (o->f) o->hk = 99; o->ro = g.constant; memcpy(o->d, g.bytes.data(), g.bytes.size()); S->mem.put(g.addr >> 32, o); }
  pushCall(g_mod->fns[it->second], {}, 0, 0, true);
  if (!g_opt.skipCtors) for (size_t i = g_mod->ctors.size(); i-- > 0;) { auto f = g_mod->fnByAddr.find(g_mod->ctors[i]); if (f == g_mod->fnByAddr.end()) continue; Function *fn = g_mod->fns[f->second]; if (!fn->defined) continue; pushCall(fn, {}, 0, 0, true); }
  localStates++; g_sh->active = 1; g_sh->procs = 1;
  pid_t worker = fork();
  if (worker == 0) { inRoot = false; loop(); g_sh->active--; fflush(nullptr); _exit(0); }
  int st; pid_t p;
  while ((p = waitpid(-1, &st, 0)) > 0 || errno == EINTR) { if (p > 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { g_sh->crash++; g_sh->stop = 1; } }
  // report
  Shared &h = *g_sh;
  std::string fn = g_opt.outdir + "/result.json"; FILE *f = fopen(fn.c_str(), "w"); if (!f) return 3;
  fprintf(f, "{\"entry\":\"%s\",\"paths\":%llu,\"insts\":%llu,\"states\":%llu,\"forks\":%llu,\"queries\":%llu,\"z3calls\":%llu,\"bbcalls\":%llu,\"cacheHits\":%llu,\"modelHits\":%llu,\"unknowns\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"violations\":%d,\"inconclusive\":%d,\"crash\":%d,\"aborts\":%llu,\"assume_killed\":%llu,\"asserts\":%llu,\"procs\":%d,\"wall_s\":%.2f,\n",
    g_opt.entry.c_str(), (unsigned long long)h.paths, (unsigned long long)h.insts, (unsigned long long)h.states, (unsigned long long)h.forks, (unsigned long long)h.queries, (unsigned long long)h.z3calls, (unsigned long long)h.bbcalls, (unsigned long long)h.cacheHits, (unsigned long long)h.modelHits, (unsigned long long)h.unknowns, h.z3us / 1e6, h.maxqus / 1e6, (int)h.viol, (int)h.incon, (int)h.crash, (unsigned long long)h.aborts, (unsigned long long)h.assumesKilled, (unsigned long long)h.asserts, (int)h.procs, now());
  auto esc = [](std::string s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) c = ' '; r += c; } return r; };
  fprintf(f, "\"inconclusive_msgs\":["); for (int i = 0; i < std::min<int>(h.incon, 32); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(h.inconMsg[i]).c_str());
  fprintf(f, "],\n\"reach\":["); for (int i = 0; i < std::min<int>(h.nreach, 512); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(h.reach[i]).c_str());
  fprintf(f, "],\n\"functions\":["); bool c = false;
  for (auto *fnp : g_mod->fns) if (fnp->defined && g_covFn[fnp->idx] && fnp->file.find("/repo/") != std::string::npos) { fprintf(f, "%s{\"f\":\"%s\",\"file\":\"%s\"}", c ? "," : "", esc(fnp->pretty).c_str(), esc(fnp->file).c_str()); c = true; }
  fprintf(f, "],\n\"lines\":{"); std::map<std::string, std::pair<std::vector<int>, int>> ln;
  for (size_t i = 1; i < g_mod->locs.size(); i++) if (g_mod->locs[i].first.find("/repo/") != std::string::npos) { auto &e = ln[g_mod->locs[i].first]; e.second++; if (g_covLoc[i]) e.first.push_back(g_mod->locs[i].second); }
  c = false; for (auto &e : ln) if (!e.second.first.empty()) { fprintf(f, "%s\"%s\":[%zu,%d]", c ? "," : "", esc(e.first).c_str(), e.second.first.size(), e.second.second); c = true; }
  fprintf(f, "}}\n"); fclose(f);
  return 0;
}
