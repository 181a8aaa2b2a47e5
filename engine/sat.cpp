#include "sat.hpp"
#include <unordered_map>
#include <algorithm>
#include <cstring>
#include <cstdlib>

namespace {
typedef int Lit; // 2*var + sign; var 0 is "true": literal 0 = true, 1 = false
enum { T = 0, F = 1 };
struct Gate { Lit a, b, c; };
struct Sat {
  // ---- CNF store
  std::vector<int> mem;                 // clause: [size, learnt/lbd, lits...]
  std::vector<int> clauses, learnts;
  struct W { int cl; Lit blk; };
  std::vector<std::vector<W>> watch;
  std::vector<signed char> val;         // per literal: 1 true, -1 false, 0 unset
  std::vector<int> level, reason, trail, lim, heap, hpos;
  std::vector<double> act; std::vector<char> phase, seen; std::vector<float> cact;
  size_t qh = 0; double inc = 1; bool ok = true; int nv = 0;
  void clear() {
    mem.clear(); clauses.clear(); learnts.clear(); for (int i = 0; i < 2 * nv; i++) watch[i].clear();
    val.clear(); level.clear(); reason.clear(); trail.clear(); lim.clear(); heap.clear(); hpos.clear(); act.clear(); phase.clear(); seen.clear();
    qh = 0; inc = 1; ok = true; nv = 0; newVar(); unit(T);
  }
  int newVar() {
    int v = nv++; if ((int)watch.size() < 2 * nv) watch.resize(2 * nv + 64);
    val.push_back(0); val.push_back(0); level.push_back(0); reason.push_back(-1); act.push_back(0); phase.push_back(1); seen.push_back(0); hpos.push_back(-1);
    hins(v); return v;
  }
  bool hless(int a, int b) { return act[a] > act[b]; }
  void hup(int i) { int x = heap[i]; while (i > 0) { int p = (i - 1) >> 1; if (!hless(x, heap[p])) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = x; hpos[x] = i; }
  void hdown(int i) { int x = heap[i], n = heap.size(); while (2 * i + 1 < n) { int c = 2 * i + 1; if (c + 1 < n && hless(heap[c + 1], heap[c])) c++; if (!hless(heap[c], x)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
  void hins(int v) { if (hpos[v] >= 0) return; hpos[v] = heap.size(); heap.push_back(v); hup(hpos[v]); }
  int hpop() { int x = heap[0]; hpos[x] = -1; int y = heap.back(); heap.pop_back(); if (!heap.empty()) { heap[0] = y; hpos[y] = 0; hdown(0); } return x; }
  void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto &a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) hup(hpos[v]); }
  void enq(Lit l, int r) { val[l] = 1; val[l ^ 1] = -1; level[l >> 1] = lim.size(); reason[l >> 1] = r; trail.push_back(l); }
  void unit(Lit l) { if (val[l] == -1) ok = false; else if (!val[l]) enq(l, -1); }
  int store(const Lit *p, int n, int learnt) { int c = mem.size(); mem.push_back(n); mem.push_back(learnt); mem.insert(mem.end(), p, p + n); watch[p[0] ^ 1].push_back({c, p[1]}); watch[p[1] ^ 1].push_back({c, p[0]}); return c; }
  void add(std::initializer_list<Lit> ls) { Lit b[4]; int n = 0; for (Lit l : ls) { if (val[l] == 1) return; if (val[l] == -1) continue; b[n++] = l; } if (n == 0) ok = false; else if (n == 1) unit(b[0]); else clauses.push_back(store(b, n, 0)); }
  int propagate() {
    while (qh < trail.size()) {
      Lit p = trail[qh++]; auto &ws = watch[p]; size_t i = 0, j = 0, n = ws.size();
      while (i < n) {
        W w = ws[i++];
        if (val[w.blk] == 1) { ws[j++] = w; continue; }
        int *c = &mem[w.cl]; int sz = c[0]; if (!sz) continue; Lit *l = c + 2; Lit np = p ^ 1;
        if (l[0] == np) { l[0] = l[1]; l[1] = np; }
        if (val[l[0]] == 1) { ws[j++] = {w.cl, l[0]}; continue; }
        bool f = false;
        for (int k = 2; k < sz; k++) if (val[l[k]] != -1) { l[1] = l[k]; l[k] = np; watch[l[1] ^ 1].push_back({w.cl, l[0]}); f = true; break; }
        if (f) continue;
        ws[j++] = {w.cl, l[0]};
        if (val[l[0]] == -1) { while (i < n) ws[j++] = ws[i++]; ws.resize(j); qh = trail.size(); return w.cl; }
        enq(l[0], w.cl);
      }
      ws.resize(j);
    }
    return -1;
  }
  void cancel(int lv) {
    if ((int)lim.size() <= lv) return;
    for (int i = (int)trail.size() - 1; i >= lim[lv]; i--) { int v = trail[i] >> 1; phase[v] = trail[i] & 1; val[trail[i]] = val[trail[i] ^ 1] = 0; hins(v); }
    trail.resize(lim[lv]); lim.resize(lv); qh = trail.size();
  }
  std::vector<Lit> lrn, toclear;
  bool redundant(Lit l, int depth) {
    int r = reason[l >> 1]; if (r < 0 || depth > 30) return false;
    int *c = &mem[r];
    for (int k = 2; k < 2 + c[0]; k++) { Lit q = c[k]; int v = q >> 1; if (q == (l ^ 1) || v == (l >> 1) || seen[v] == 1 || seen[v] == 2 || !level[v]) continue;
      if (seen[v] == 3) return false; if (!redundant(q, depth + 1)) { if (!seen[v]) { seen[v] = 3; toclear.push_back(q); } return false; } if (!seen[v]) { seen[v] = 2; toclear.push_back(q); } }
    return true;
  }
  int analyze(int confl, int &bt) {
    lrn.clear(); lrn.push_back(0); toclear.clear(); int cnt = 0; Lit p = -1; int idx = trail.size() - 1;
    do {
      int *c = &mem[confl];
      for (int k = 2; k < 2 + c[0]; k++) { Lit q = c[k]; if (q == p) continue; int v = q >> 1; if (seen[v] || !level[v]) continue; seen[v] = 1; toclear.push_back(q); bump(v); if (level[v] == (int)lim.size()) cnt++; else lrn.push_back(q); }
      while (!seen[trail[idx] >> 1]) idx--;
      p = trail[idx--]; confl = reason[p >> 1]; cnt--;
    } while (cnt > 0);
    lrn[0] = p ^ 1;
    size_t j = 1; for (size_t i = 1; i < lrn.size(); i++) if (!redundant(lrn[i], 0)) lrn[j++] = lrn[i];
    lrn.resize(j); bt = 0;
    if (lrn.size() > 1) { size_t m = 1; for (size_t i = 2; i < lrn.size(); i++) if (level[lrn[i] >> 1] > level[lrn[m] >> 1]) m = i; std::swap(lrn[1], lrn[m]); bt = level[lrn[1] >> 1]; }
    std::vector<int> &lv = tmpl; lv.clear(); for (Lit l : lrn) lv.push_back(level[l >> 1]); std::sort(lv.begin(), lv.end()); int lbd = std::unique(lv.begin(), lv.end()) - lv.begin();
    for (Lit l : toclear) seen[l >> 1] = 0;
    return lbd;
  }
  std::vector<int> tmpl;
  void reduce() {
    std::sort(learnts.begin(), learnts.end(), [&](int a, int b) { return mem[a + 1] < mem[b + 1]; });
    size_t keep = learnts.size() / 2, j = 0;
    for (size_t i = 0; i < learnts.size(); i++) {
      int c = learnts[i]; Lit l0 = mem[c + 2]; bool locked = val[l0] == 1 && reason[l0 >> 1] == c;
      if (i < keep || mem[c + 1] <= 3 || locked) learnts[j++] = c; else mem[c] = 0;
    }
    learnts.resize(j);
    for (int i = 0; i < 2 * nv; i++) { auto &w = watch[i]; w.erase(std::remove_if(w.begin(), w.end(), [&](const W &x) { return mem[x.cl] == 0; }), w.end()); }
  }
  static double luby(int x) { int size = 1, seq = 0; while (size < x + 1) { seq++; size = 2 * size + 1; } while (size - 1 != x) { size = (size - 1) >> 1; seq--; x %= size; } return 1 << seq; }
  int solve(unsigned long maxC) {
    if (!ok || propagate() >= 0) return 0;
    unsigned long conf = 0, rst = 0, lim2 = 100, maxL = 3000;
    for (;;) {
      int c = propagate();
      if (c >= 0) {
        if (lim.empty()) return 0;
        if (++conf > maxC) return -1;
        int bt; int lbd = analyze(c, bt); cancel(bt);
        if (lrn.size() == 1) enq(lrn[0], -1);
        else { int k = store(lrn.data(), lrn.size(), lbd); learnts.push_back(k); enq(lrn[0], k); }
        inc *= 1.0 / 0.95;
        if (learnts.size() > maxL) { reduce(); maxL += 500; }
        if (conf > lim2) { cancel(0); rst++; lim2 = conf + 100 * luby(rst); }
      } else {
        int v = -1; while (!heap.empty()) { v = hpop(); if (!val[2 * v]) break; v = -1; }
        if (v < 0) return 1;
        lim.push_back(trail.size()); enq(2 * v + phase[v], -1);
      }
    }
  }
};
static Sat S;
struct GK { int op; Lit a, b, c; bool operator==(const GK &o) const { return op == o.op && a == o.a && b == o.b && c == o.c; } };
struct GH { size_t operator()(const GK &g) const { uint64_t h = g.op; h = (h ^ g.a) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; h = (h ^ g.b) * 0x9E3779B97F4A7C15ULL; h ^= h >> 31; h = (h ^ g.c) * 0x9E3779B97F4A7C15ULL; return h ^ (h >> 32); } };
static std::unordered_map<GK, Lit, GH> gates;
typedef std::vector<Lit> Bits;
static std::unordered_map<Node *, Bits> bl;
static bool unsupported; static const std::unordered_map<Node *, char> *g_cut;

static Lit NOT(Lit a) { return a ^ 1; }
static Lit AND(Lit a, Lit b) {
  if (a == F || b == F) return F; if (a == T) return b; if (b == T) return a; if (a == b) return a; if (a == NOT(b)) return F;
  if (a > b) std::swap(a, b);
  auto r = gates.emplace(GK{0, a, b, 0}, 0); if (!r.second) return r.first->second;
  Lit o = 2 * S.newVar(); r.first->second = o;
  S.add({NOT(o), a}); S.add({NOT(o), b}); S.add({o, NOT(a), NOT(b)}); return o;
}
static Lit OR(Lit a, Lit b) { return NOT(AND(NOT(a), NOT(b))); }
static Lit XOR(Lit a, Lit b) {
  if (a == F) return b; if (b == F) return a; if (a == T) return NOT(b); if (b == T) return NOT(a); if (a == b) return F; if (a == NOT(b)) return T;
  int s = (a & 1) ^ (b & 1); a &= ~1; b &= ~1; if (a > b) std::swap(a, b);
  auto r = gates.emplace(GK{1, a, b, 0}, 0); if (!r.second) return r.first->second ^ s;
  Lit o = 2 * S.newVar(); r.first->second = o;
  S.add({NOT(o), a, b}); S.add({NOT(o), NOT(a), NOT(b)}); S.add({o, NOT(a), b}); S.add({o, a, NOT(b)}); return o ^ s;
}
static Lit MUX(Lit c, Lit a, Lit b) {
  if (c == T) return a; if (c == F) return b; if (a == b) return a; if (a == NOT(b)) return XOR(c, b);
  if (a == T) return OR(c, b); if (a == F) return AND(NOT(c), b); if (b == T) return OR(NOT(c), a); if (b == F) return AND(c, a);
  if (c == a) return OR(c, b); if (c == NOT(a)) return AND(NOT(c), b); if (c == b) return AND(c, a); if (c == NOT(b)) return OR(NOT(c), a);
  if (c & 1) { c ^= 1; std::swap(a, b); }
  int s = a & 1; a ^= s; b ^= s;
  auto r = gates.emplace(GK{2, c, a, b}, 0); if (!r.second) return r.first->second ^ s;
  Lit o = 2 * S.newVar(); r.first->second = o;
  S.add({NOT(c), NOT(a), o}); S.add({NOT(c), a, NOT(o)}); S.add({c, NOT(b), o}); S.add({c, b, NOT(o)}); S.add({NOT(a), NOT(b), o}); S.add({a, b, NOT(o)});
  return o ^ s;
}
static Lit MAJ(Lit a, Lit b, Lit c) {
  if (a == F) return AND(b, c); if (a == T) return OR(b, c); if (b == F) return AND(a, c); if (b == T) return OR(a, c); if (c == F) return AND(a, b); if (c == T) return OR(a, b);
  if (a == b) return a; if (a == c) return a; if (b == c) return b; if (a == NOT(b)) return c; if (a == NOT(c)) return b; if (b == NOT(c)) return a;
  if (a > b) std::swap(a, b); if (b > c) std::swap(b, c); if (a > b) std::swap(a, b);
  auto r = gates.emplace(GK{3, a, b, c}, 0); if (!r.second) return r.first->second;
  Lit o = 2 * S.newVar(); r.first->second = o;
  S.add({NOT(a), NOT(b), o}); S.add({NOT(a), NOT(c), o}); S.add({NOT(b), NOT(c), o}); S.add({a, b, NOT(o)}); S.add({a, c, NOT(o)}); S.add({b, c, NOT(o)});
  return o;
}
static Bits addc(const Bits &a, const Bits &b, Lit ci, Lit *co = nullptr) {
  Bits r(a.size()); for (size_t i = 0; i < a.size(); i++) { r[i] = XOR(XOR(a[i], b[i]), ci); if (co || i + 1 < a.size()) ci = MAJ(a[i], b[i], ci); } if (co) *co = ci; return r;
}
static Bits inv(const Bits &a) { Bits r(a); for (auto &x : r) x ^= 1; return r; }
static Bits neg(const Bits &a) { return addc(inv(a), Bits(a.size(), F), T); }
static Lit ult(const Bits &a, const Bits &b) { Lit lt = F; for (size_t i = 0; i < a.size(); i++) lt = MAJ(NOT(a[i]), b[i], lt); return lt; }
static Lit eq(const Bits &a, const Bits &b) { Lit r = T; for (size_t i = 0; i < a.size(); i++) r = AND(r, NOT(XOR(a[i], b[i]))); return r; }
static Bits mux(Lit c, const Bits &a, const Bits &b) { Bits r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = MUX(c, a[i], b[i]); return r; }
static Bits mul(const Bits &a, const Bits &b) {
  size_t w = a.size(), ca = 0, cb = 0; for (Lit x : a) ca += x > 1; for (Lit x : b) cb += x > 1;
  const Bits &x = ca < cb ? b : a, &y = ca < cb ? a : b; // y: more constant
  Bits acc(w, F);
  // non-adjacent form for constants
  if (std::min(ca, cb) == 0) {
    uint64_t c = 0; for (size_t i = 0; i < w; i++) if (y[i] == T) c |= 1ULL << i;
    unsigned __int128 k = c; 
    for (size_t i = 0; i < w && k; i++, k >>= 1) if (k & 1) {
      bool minus = (k & 3) == 3; Bits s(w, F); for (size_t j = i; j < w; j++) s[j] = x[j - i];
      if (minus) { acc = addc(acc, inv(s), T); k += 1; } else { acc = addc(acc, s, F); k -= 1; }
    }
    return acc;
  }
  for (size_t i = 0; i < w; i++) { if (y[i] == F) continue; Bits s(w, F); for (size_t j = i; j < w; j++) s[j] = AND(x[j - i], y[i]); acc = addc(acc, s, F); }
  return acc;
}
static void udivrem(const Bits &a, const Bits &b, Bits &q, Bits &r) {
  size_t w = a.size(); Bits rem(w + 1, F), bb(b); bb.push_back(F); q.assign(w, F);
  for (size_t i = w; i-- > 0;) {
    for (size_t j = w; j > 0; j--) rem[j] = rem[j - 1];
    rem[0] = a[i];
    Lit co; Bits d = addc(rem, inv(bb), T, &co); // co = rem >= b
    q[i] = co; rem = mux(co, d, rem);
  }
  rem.pop_back(); r = rem;
}
static const Bits &bits(Node *n);
static Bits shift(const Bits &a, const Bits &s, bool left, Lit fill) {
  size_t w = a.size(); Bits r(a); Lit big = F; 
  for (size_t k = 0; k < s.size(); k++) {
    if (k < 7 && (1u << k) < w) {
      size_t d = 1u << k; Bits t(w);
      for (size_t i = 0; i < w; i++) t[i] = left ? (i >= d ? r[i - d] : F) : (i + d < w ? r[i + d] : fill);
      r = mux(s[k], t, r);
    } else big = OR(big, s[k]);
  }
  return mux(big, Bits(w, fill), r);
}
static const Bits &bits(Node *n) {
  { auto i = bl.find(n); if (i != bl.end()) return i->second; }
  Bits r; unsigned w = n->w;
  if (g_cut && n->k != K_CONST && g_cut->count(n)) { for (unsigned i = 0; i < w; i++) r.push_back(2 * S.newVar()); return bl[n] = std::move(r); }
  switch (n->k) {
  case K_CONST: for (unsigned i = 0; i < w; i++) r.push_back((n->v >> i) & 1 ? T : F); break;
  case K_VAR: for (unsigned i = 0; i < w; i++) r.push_back(2 * S.newVar()); break;
  case K_ADD: r = addc(bits(n->a), bits(n->b), F); break;
  case K_SUB: r = addc(bits(n->a), inv(bits(n->b)), T); break;
  case K_MUL: r = mul(bits(n->a), bits(n->b)); break;
  case K_UDIV: { Bits q, m; udivrem(bits(n->a), bits(n->b), q, m); r = q; break; }
  case K_UREM: { Bits q, m; udivrem(bits(n->a), bits(n->b), q, m); r = m; break; }
  case K_SDIV: case K_SREM: {
    Bits a = bits(n->a), b = bits(n->b), q, m; Lit sa = a.back(), sb = b.back();
    udivrem(mux(sa, neg(a), a), mux(sb, neg(b), b), q, m);
    r = n->k == K_SDIV ? mux(XOR(sa, sb), neg(q), q) : mux(sa, neg(m), m); break; }
  case K_AND: { Bits a = bits(n->a), b = bits(n->b); for (unsigned i = 0; i < w; i++) r.push_back(AND(a[i], b[i])); break; }
  case K_OR: { Bits a = bits(n->a), b = bits(n->b); for (unsigned i = 0; i < w; i++) r.push_back(OR(a[i], b[i])); break; }
  case K_XOR: { Bits a = bits(n->a), b = bits(n->b); for (unsigned i = 0; i < w; i++) r.push_back(XOR(a[i], b[i])); break; }
  case K_NOT: r = inv(bits(n->a)); break;
  case K_SHL: { Bits a = bits(n->a); r = shift(a, bits(n->b), true, F); break; }
  case K_LSHR: { Bits a = bits(n->a); r = shift(a, bits(n->b), false, F); break; }
  case K_ASHR: { Bits a = bits(n->a); r = shift(a, bits(n->b), false, a.back()); break; }
  case K_EQ: { Bits a = bits(n->a); r.push_back(eq(a, bits(n->b))); break; }
  case K_ULT: { Bits a = bits(n->a); r.push_back(ult(a, bits(n->b))); break; }
  case K_SLT: { Bits a = bits(n->a), b = bits(n->b); a.back() ^= 1; b.back() ^= 1; r.push_back(ult(a, b)); break; }
  case K_ITE: { Lit c = bits(n->a)[0]; Bits a = bits(n->b); r = mux(c, a, bits(n->c)); break; }
  case K_CONCAT: { Bits h = bits(n->a); r = bits(n->b); r.insert(r.end(), h.begin(), h.end()); break; }
  case K_EXTRACT: { const Bits &a = bits(n->a); r.assign(a.begin() + n->v, a.begin() + n->v + w); break; }
  case K_ZEXT: r = bits(n->a); r.resize(w, F); break;
  case K_SEXT: { r = bits(n->a); Lit s = r.back(); r.resize(w, s); break; }
  default: unsupported = true; r.assign(w, F); break;
  }
  return bl[n] = std::move(r);
}
}

int satDecide(const std::vector<Node *> &cs, std::vector<uint64_t> &model, unsigned long maxConflicts) {
  S.clear(); if (gates.bucket_count() > 65536) decltype(gates)().swap(gates); else gates.clear(); if (bl.bucket_count() > 8192) decltype(bl)().swap(bl); else bl.clear(); unsupported = false;
  for (Node *n : cs) { Lit l = bits(n)[0]; if (unsupported) return -1; S.add({l}); if (!S.ok) return 0; if (S.nv > 400000) return -1; }
  int r = S.solve(maxConflicts);
  if (r == 1) for (auto &p : bl) if (p.first->k == K_VAR) {
    uint64_t v = 0; for (unsigned i = 0; i < p.first->w; i++) if (S.val[p.second[i]] == 1) v |= 1ULL << i;
    if (model.size() <= p.first->v) model.resize(p.first->v + 1, 0); model[p.first->v] = v;
  }
  return r;
}
// Weaker query: the nodes in 'cut' are replaced by unconstrained values. True: unsatisfiable, so the query itself is.
bool satRefuteAbstract(const std::vector<Node *> &cs, const std::unordered_map<Node *, char> &cut, unsigned long maxConflicts) {
  S.clear(); if (gates.bucket_count() > 65536) decltype(gates)().swap(gates); else gates.clear(); if (bl.bucket_count() > 8192) decltype(bl)().swap(bl); else bl.clear(); unsupported = false; g_cut = &cut; bool ok = true, ref = false;
  for (Node *n : cs) { Lit l = bits(n)[0]; if (unsupported || S.nv > 400000) { ok = false; break; } S.add({l}); if (!S.ok) { ref = true; break; } }
  if (ok && !ref) ref = S.solve(maxConflicts) == 0;
  g_cut = nullptr; return ok && ref;
}
