#include "expr.hpp"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <unordered_map>
#include <algorithm>

uint64_t g_nodes = 0;
static std::vector<Node *> table;
static size_t tableMask = 0;
static uint32_t g_epoch = 1;

// ---- arena
static char *arena = nullptr; static size_t arenaLeft = 0;
static void *aalloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (arenaLeft < n) { size_t c = 1 << 20; if (c < n) c = n; arena = (char *)malloc(c); arenaLeft = c; }
  void *r = arena; arena += n; arenaLeft -= n; return r;
}
// ---- varsets
static std::unordered_multimap<uint64_t, const VarSet *> vsTab;
static std::unordered_map<uint64_t, const VarSet *> vsUnion;
static uint32_t vsNext = 1;
static const VarSet *vsIntern(const std::vector<uint64_t> &w) {
  uint64_t h = 1469598103934665603ULL;
  for (uint64_t x : w) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; }
  auto r = vsTab.equal_range(h);
  for (auto i = r.first; i != r.second; ++i)
    if (i->second->n == w.size() && !memcmp(i->second->w, w.data(), 8 * w.size())) return i->second;
  uint64_t *p = (uint64_t *)aalloc(8 * w.size() + 8);
  memcpy(p, w.data(), 8 * w.size());
  VarSet *v = (VarSet *)aalloc(sizeof(VarSet));
  v->n = w.size(); v->w = p; v->id = vsNext++;
  vsTab.emplace(h, v);
  return v;
}
static const VarSet *vsU(const VarSet *a, const VarSet *b) {
  if (!a) return b; if (!b) return a; if (a == b) return a;
  if (a->id > b->id) std::swap(a, b);
  uint64_t key = ((uint64_t)a->id << 32) | b->id;
  auto i = vsUnion.find(key);
  if (i != vsUnion.end()) return i->second;
  std::vector<uint64_t> w(std::max(a->n, b->n), 0);
  for (uint32_t j = 0; j < a->n; j++) w[j] |= a->w[j];
  for (uint32_t j = 0; j < b->n; j++) w[j] |= b->w[j];
  const VarSet *r = vsIntern(w);
  vsUnion[key] = r;
  return r;
}
bool vsIntersects(const VarSet *a, const VarSet *b) {
  if (!a || !b) return false;
  uint32_t n = std::min(a->n, b->n);
  for (uint32_t i = 0; i < n; i++) if (a->w[i] & b->w[i]) return true;
  return false;
}

static Node *intern(Kind k, unsigned w, Node *a, Node *b, Node *c, uint64_t v, unsigned w2 = 0) {
  uint64_t h = k * 0x9E3779B97F4A7C15ULL + w * 1000003 + w2 * 7919;
  h = (h ^ (uint64_t)(a ? a->id : 0)) * 0xff51afd7ed558ccdULL; h ^= h >> 32;
  h = (h ^ (uint64_t)(b ? b->id : 0)) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 29;
  h = (h ^ (uint64_t)(c ? c->id : 0)) * 0xff51afd7ed558ccdULL; h ^= h >> 32;
  h = (h ^ v) * 0x9E3779B97F4A7C15ULL; h ^= h >> 31;
  if (table.empty()) { table.assign(1 << 16, nullptr); tableMask = table.size() - 1; }
  uint32_t hh = (uint32_t)h;
  for (Node *n = table[hh & tableMask]; n; n = n->next)
    if (n->hash == hh && n->k == k && n->w == w && n->w2 == w2 && n->a == a && n->b == b && n->c == c && n->v == v) return n;
  if (g_nodes > table.size()) {
    std::vector<Node *> nt(table.size() * 4, nullptr);
    size_t nm = nt.size() - 1;
    for (Node *n : table) while (n) { Node *x = n->next; n->next = nt[n->hash & nm]; nt[n->hash & nm] = n; n = x; }
    table.swap(nt); tableMask = nm;
  }
  Node *n = (Node *)aalloc(sizeof(Node));
  memset(n, 0, sizeof(Node));
  n->k = k; n->w = w; n->w2 = w2; n->a = a; n->b = b; n->c = c; n->v = v; n->hash = hh; n->id = ++g_nodes;
  n->isfp = (k >= K_FADD) || (a && a->isfp) || (b && b->isfp) || (c && c->isfp);
  if (k == K_VAR) {
    std::vector<uint64_t> bits(v / 64 + 1, 0); bits[v / 64] |= 1ULL << (v % 64);
    n->vs = vsIntern(bits);
  } else {
    const VarSet *s = a ? a->vs : nullptr;
    if (b) s = vsU(s, b->vs);
    if (c) s = vsU(s, c->vs);
    n->vs = s;
  }
  n->next = table[hh & tableMask]; table[hh & tableMask] = n;
  return n;
}
static Node *cn(uint64_t v, unsigned w) { return intern(K_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
Node *nodeOf(Val v, unsigned w) { return v.n ? v.n : cn(v.c, w); }
static inline Val V(Node *n) { return n->k == K_CONST ? Val(n->v) : Val(n); }
static inline Val child(Node *n) { return V(n); }
static std::vector<Node *> g_vars;
Val mkVar(unsigned idx, unsigned w) { Node *n = intern(K_VAR, w, nullptr, nullptr, nullptr, idx); if (g_vars.size() <= idx) g_vars.resize(idx + 1); g_vars[idx] = n; return n; }

static uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w); a &= m; b &= m;
  switch (k) {
  case K_ADD: return (a + b) & m;
  case K_SUB: return (a - b) & m;
  case K_MUL: return (a * b) & m;
  case K_UDIV: return b ? (a / b) & m : m;
  case K_UREM: return b ? (a % b) & m : a;
  case K_SDIV: { if (!b) return sextw(a, w) < 0 ? 1 : m; int64_t x = sextw(a, w), y = sextw(b, w); if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
  case K_SREM: { if (!b) return a; int64_t x = sextw(a, w), y = sextw(b, w); if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case K_AND: return a & b;
  case K_OR: return a | b;
  case K_XOR: return a ^ b;
  case K_SHL: return b >= w ? 0 : (a << b) & m;
  case K_LSHR: return b >= w ? 0 : a >> b;
  case K_ASHR: { int64_t x = sextw(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
  default: abort();
  }
}
static uint64_t foldCmp(Kind k, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w); a &= m; b &= m;
  if (k == K_EQ) return a == b;
  if (k == K_ULT) return a < b;
  return sextw(a, w) < sextw(b, w);
}

static unsigned knownZeroNode(Node *n, unsigned w) {
  switch (n->k) {
  case K_CONCAT: { unsigned l = knownZeroLow(child(n->b), n->b->w); if (l == n->b->w) return l + knownZeroLow(child(n->a), n->a->w); return l; }
  case K_ZEXT: case K_SEXT: return knownZeroLow(child(n->a), n->a->w);
  case K_ADD: case K_SUB: case K_OR: case K_XOR: { unsigned l = knownZeroLow(child(n->a), w); return l ? std::min(l, knownZeroLow(child(n->b), w)) : 0; }
  case K_AND: return std::max(knownZeroLow(child(n->a), w), knownZeroLow(child(n->b), w));
  case K_MUL: { unsigned l = knownZeroLow(child(n->a), w) + knownZeroLow(child(n->b), w); return l > w ? w : l; }
  case K_ITE: { unsigned l = knownZeroLow(child(n->b), w); return l ? std::min(l, knownZeroLow(child(n->c), w)) : 0; }
  case K_SHL: return knownZeroLow(child(n->a), w);
  default: return 0;
  }
}
unsigned knownZeroLow(Val v, unsigned w) {
  if (v.isC()) { if (!v.c) return w; unsigned n = __builtin_ctzll(v.c); return n < w ? n : w; }
  if (!v.n->kz) v.n->kz = 1 + knownZeroNode(v.n, w);
  return v.n->kz - 1;
}

// upper bound (unsigned) cheaply derivable
static uint64_t umax(Val v, unsigned w, int d = 0) {
  if (v.isC()) return v.c;
  Node *n = v.n; uint64_t m = maskw(w);
  if (d > 12) return m;
  switch (n->k) {
  case K_ZEXT: return umax(child(n->a), n->a->w, d + 1);
  case K_CONCAT: { uint64_t h = umax(child(n->a), n->a->w, d + 1), l = umax(child(n->b), n->b->w, d + 1); return (h << n->b->w) + l; }
  case K_AND: return std::min(umax(child(n->a), w, d + 1), umax(child(n->b), w, d + 1));
  case K_ITE: return std::max(umax(child(n->b), w, d + 1), umax(child(n->c), w, d + 1));
  case K_UREM: { Val b = child(n->b); uint64_t x = umax(child(n->a), w, d + 1); if (b.isC() && b.c) return std::min(b.c - 1, x); return x; }
  case K_UDIV: { Val b = child(n->b); uint64_t x = umax(child(n->a), w, d + 1); if (b.isC() && b.c) return x / b.c; return m; }
  case K_LSHR: { Val b = child(n->b); uint64_t x = umax(child(n->a), w, d + 1); if (b.isC()) return b.c >= w ? 0 : x >> b.c; return x; }
  case K_ADD: { uint64_t x = umax(child(n->a), w, d + 1), y = umax(child(n->b), w, d + 1); if (x + y < x || x + y > m) return m; return x + y; }
  case K_MUL: { uint64_t x = umax(child(n->a), w, d + 1), y = umax(child(n->b), w, d + 1); __uint128_t p = (__uint128_t)x * y; return p > m ? m : (uint64_t)p; }
  case K_OR: case K_XOR: { uint64_t x = umax(child(n->a), w, d + 1) | umax(child(n->b), w, d + 1); if (!x) return 0; unsigned l = 64 - __builtin_clzll(x); return maskw(l) & m; }
  default: return m;
  }
}
static uint64_t umin(Val v, unsigned w, int d = 0) {
  if (v.isC()) return v.c;
  Node *n = v.n;
  if (d > 12) return 0;
  switch (n->k) {
  case K_ZEXT: return umin(child(n->a), n->a->w, d + 1);
  case K_CONCAT: return (umin(child(n->a), n->a->w, d + 1) << n->b->w) | umin(child(n->b), n->b->w, d + 1);
  case K_ITE: return std::min(umin(child(n->b), w, d + 1), umin(child(n->c), w, d + 1));
  case K_OR: return std::max(umin(child(n->a), w, d + 1), umin(child(n->b), w, d + 1));
  case K_ADD: { uint64_t x = umax(child(n->a), w, d + 1), y = umax(child(n->b), w, d + 1); if (x + y < x || x + y > maskw(w)) return 0; return umin(child(n->a), w, d + 1) + umin(child(n->b), w, d + 1); }
  default: return 0;
  }
}

Val mkNot(Val a, unsigned w) {
  if (a.isC()) return Val(~a.c & maskw(w));
  if (a.n->k == K_NOT) return child(a.n->a);
  if (w == 1 && a.n->k == K_ITE) {
    Val b = child(a.n->b), c = child(a.n->c);
    if (b.isC() || c.isC()) return mkIte(child(a.n->a), mkNot(b, 1), mkNot(c, 1), 1);
  }
  return Val(intern(K_NOT, w, a.n, nullptr, nullptr, 0));
}

Val mkZext(Val a, unsigned wa, unsigned w) {
  if (w == wa) return a;
  if (a.isC()) return Val(a.c & maskw(wa));
  if (a.n->k == K_ZEXT) return mkZext(child(a.n->a), a.n->a->w, w);
  if (a.n->k == K_ITE && !child(a.n->b).n && !child(a.n->c).n)
    return mkIte(child(a.n->a), Val(a.n->b->v), Val(a.n->c->v), w);
  return Val(intern(K_ZEXT, w, a.n, nullptr, nullptr, 0));
}
Val mkSext(Val a, unsigned wa, unsigned w) {
  if (w == wa) return a;
  if (a.isC()) return Val((uint64_t)sextw(a.c, wa) & maskw(w));
  if (a.n->k == K_ZEXT && a.n->a->w < wa) return mkZext(child(a.n->a), a.n->a->w, w);
  if (a.n->k == K_SEXT) return mkSext(child(a.n->a), a.n->a->w, w);
  if (a.n->k == K_ITE && !child(a.n->b).n && !child(a.n->c).n)
    return mkIte(child(a.n->a), mkSext(Val(a.n->b->v), wa, w), mkSext(Val(a.n->c->v), wa, w), w);
  if (umax(a, wa) < (1ULL << (wa - 1))) return mkZext(a, wa, w);
  return Val(intern(K_SEXT, w, a.n, nullptr, nullptr, 0));
}
static Val mkExtract1(Node *n, unsigned wa, unsigned off, unsigned w);
Val mkExtract(Val a, unsigned wa, unsigned off, unsigned w) {
  if (off == 0 && w == wa) return a;
  if (a.isC()) return Val((a.c >> off) & maskw(w));
  Node *n = a.n;
  switch (n->k) { // pushed through the operands: memoised, or shared operands make it exponential
  case K_AND: case K_OR: case K_XOR: case K_NOT: case K_ADD: case K_SUB: case K_MUL: case K_ITE: case K_CONCAT: {
    struct Ent { Node *n; unsigned k; Val v; };
    static std::vector<Ent> memo(1 << 16);
    unsigned k = off * 128 + w; Ent &e = memo[(n->id * 2654435761u + k * 40503u) >> 16 & 0xffff];
    if (e.n == n && e.k == k) return e.v;
    Val v = mkExtract1(n, wa, off, w);
    Ent &e2 = memo[(n->id * 2654435761u + k * 40503u) >> 16 & 0xffff]; e2.n = n; e2.k = k; e2.v = v;
    return v;
  }
  default: return mkExtract1(n, wa, off, w);
  }
}
static Val mkExtract1(Node *n, unsigned wa, unsigned off, unsigned w) {
  switch (n->k) {
  case K_EXTRACT: return mkExtract(child(n->a), n->a->w, off + n->v, w);
  case K_CONCAT: {
    unsigned wl = n->b->w;
    if (off >= wl) return mkExtract(child(n->a), n->a->w, off - wl, w);
    if (off + w <= wl) return mkExtract(child(n->b), wl, off, w);
    return mkConcat(mkExtract(child(n->a), n->a->w, 0, off + w - wl), off + w - wl, mkExtract(child(n->b), wl, off, wl - off), wl - off);
  }
  case K_ZEXT: {
    unsigned wi = n->a->w;
    if (off >= wi) return Val(0ULL);
    if (off + w <= wi) return mkExtract(child(n->a), wi, off, w);
    return mkZext(mkExtract(child(n->a), wi, off, wi - off), wi - off, w);
  }
  case K_SEXT: {
    unsigned wi = n->a->w;
    if (off + w <= wi) return mkExtract(child(n->a), wi, off, w);
    if (off < wi) return mkSext(mkExtract(child(n->a), wi, off, wi - off), wi - off, w);
    return mkSext(mkExtract(child(n->a), wi, wi - 1, 1), 1, w);
  }
  case K_ITE: {
    Val b = child(n->b), c = child(n->c);
    if (b.isC() || c.isC() || n->b->k == K_CONCAT || n->c->k == K_CONCAT || n->b->k == K_ITE || n->c->k == K_ITE)
      return mkIte(child(n->a), mkExtract(b, wa, off, w), mkExtract(c, wa, off, w), w);
    break;
  }
  case K_AND: case K_OR: case K_XOR:
    return mkBin(n->k, mkExtract(child(n->a), wa, off, w), mkExtract(child(n->b), wa, off, w), w);
  case K_NOT: return mkNot(mkExtract(child(n->a), wa, off, w), w);
  case K_ADD: case K_SUB: case K_MUL:
    if (off == 0 && 2 * w <= wa) return mkBin(n->k, mkExtract(child(n->a), wa, 0, w), mkExtract(child(n->b), wa, 0, w), w);
    break;
  default: break;
  }
  return Val(intern(K_EXTRACT, w, n, nullptr, nullptr, off));
}
Val mkConcat(Val hi, unsigned wh, Val lo, unsigned wl) {
  unsigned w = wh + wl;
  if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (wh == 0) return lo;
  if (wl == 0) return hi;
  if (hi.isC() && lo.isC()) return Val(((hi.c & maskw(wh)) << wl) | (lo.c & maskw(wl)));
  if (hi.isC() && (hi.c & maskw(wh)) == 0) return mkZext(lo, wl, w);
  if (hi.n && lo.n) {
    // adjacent extracts
    if (hi.n->k == K_EXTRACT && lo.n->k == K_EXTRACT && hi.n->a == lo.n->a && hi.n->v == lo.n->v + wl)
      return mkExtract(child(hi.n->a), hi.n->a->w, lo.n->v, w);
    // hi = extract(x, wx..), lo = x's zext?  lo whole var, hi extract no.
    if (lo.n->k == K_CONCAT) {
      Val lh = child(lo.n->a), ll = child(lo.n->b);
      if (lh.n && hi.n->k == K_EXTRACT && lh.n->k == K_EXTRACT && hi.n->a == lh.n->a && hi.n->v == lh.n->v + lo.n->a->w)
        return mkConcat(mkConcat(hi, wh, lh, lo.n->a->w), wh + lo.n->a->w, ll, lo.n->b->w);
    }
    if (hi.n->k == K_ITE && lo.n->k == K_ITE && hi.n->a == lo.n->a)
      return mkIte(child(hi.n->a), mkConcat(child(hi.n->b), wh, child(lo.n->b), wl), mkConcat(child(hi.n->c), wh, child(lo.n->c), wl), w);
    if (hi.n->k == K_SEXT && lo.n->k == K_SEXT && hi.n->a == lo.n->a) return mkSext(child(lo.n->a), lo.n->a->w, w);
    if (hi.n->k == K_SEXT && hi.n->a->w == 1 && hi.n->a->k == K_EXTRACT && lo.n == hi.n->a->a && hi.n->a->v == wl - 1) return mkSext(lo, wl, w);
    if (hi.n->k == K_SEXT && hi.n->a->w == 1 && hi.n->a->k == K_EXTRACT && lo.n->k == K_SEXT && lo.n->a == hi.n->a->a && hi.n->a->v == lo.n->a->w - 1) return mkSext(child(lo.n->a), lo.n->a->w, w);
  }
  if (lo.n && lo.n->k == K_CONCAT && hi.isC()) {
    Val lh = child(lo.n->a);
    if (lh.isC()) return mkConcat(mkConcat(hi, wh, lh, lo.n->a->w), wh + lo.n->a->w, child(lo.n->b), lo.n->b->w);
  }
  if (hi.n && hi.n->k == K_ITE && lo.isC() && !child(hi.n->b).n && !child(hi.n->c).n)
    return mkIte(child(hi.n->a), mkConcat(child(hi.n->b), wh, lo, wl), mkConcat(child(hi.n->c), wh, lo, wl), w);
  if (hi.n && hi.n->k == K_ZEXT) {
    // concat(zext(x), lo) = zext(concat(x, lo))
    return mkZext(mkConcat(child(hi.n->a), hi.n->a->w, lo, wl), hi.n->a->w + wl, w);
  }
  return Val(intern(K_CONCAT, w, nodeOf(hi, wh), nodeOf(lo, wl), nullptr, 0));
}

Val mkIte(Val c, Val a, Val b, unsigned w) {
  if (c.isC()) return (c.c & 1) ? a : b;
  uint64_t m = maskw(w);
  if (a.isC()) a.c &= m;
  if (b.isC()) b.c &= m;
  if (a.n == b.n && a.c == b.c) return a;
  if (c.n->k == K_NOT) return mkIte(child(c.n->a), b, a, w);
  if (w == 1) {
    if (a.isC() && b.isC()) return a.c ? c : mkNot(c, 1);
    if (a.isC()) return a.c ? bOr(c, b) : bAnd(bNot(c), b);
    if (b.isC()) return b.c ? bOr(bNot(c), a) : bAnd(c, a);
  }
  // same condition nested
  if (a.n && a.n->k == K_ITE && a.n->a == c.n) return mkIte(c, child(a.n->b), b, w);
  if (b.n && b.n->k == K_ITE && b.n->a == c.n) return mkIte(c, a, child(b.n->c), w);
  // ite(x==k, k, x) -> x
  if (c.n->k == K_EQ && c.n->b->k == K_CONST && b.n == c.n->a && a.isC() && a.c == c.n->b->v) return b;
  return Val(intern(K_ITE, w, c.n, nodeOf(a, w), nodeOf(b, w), 0));
}

static bool isC(Val v, uint64_t x, unsigned w) { return v.isC() && (v.c & maskw(w)) == (x & maskw(w)); }

// the single variable (of at most 8 bits) that a and b depend on, or null
static Node *onlyVar(Val a, Val b) {
  int idx = -1;
  for (Val v : {a, b}) if (v.n) { if (!v.n->vs) return nullptr; for (uint32_t i = 0; i < v.n->vs->n; i++) { uint64_t x = v.n->vs->w[i]; if (!x) continue; if (x & (x - 1)) return nullptr; int j = i * 64 + __builtin_ctzll(x); if (idx >= 0 && idx != j) return nullptr; idx = j; } }
  if (idx < 0 || idx >= (int)g_vars.size() || !g_vars[idx] || g_vars[idx]->w > 8) return nullptr;
  return g_vars[idx];
}
static Val tableOf(Node *var, const std::vector<uint64_t> &t, unsigned bit, uint64_t base, unsigned w) {
  if (bit == 0) return Val(t[base]);
  return mkIte(mkExtract(Val(var), var->w, bit - 1, 1), tableOf(var, t, bit - 1, base | 1ULL << (bit - 1), w), tableOf(var, t, bit - 1, base, w), w);
}
Val mkBin(Kind k, Val a, Val b, unsigned w) {
  if ((k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) && b.n && w > 4) if (Node *v = onlyVar(a, b)) { // table instead of a divider
    std::vector<uint64_t> m(v->v + 1), t(1ULL << v->w);
    for (uint64_t x = 0; x < t.size(); x++) { m[v->v] = x; evalNewEpoch(); uint64_t p = evalVal(a, m), q = evalVal(b, m); t[x] = foldBin(k, p, q, w); }
    evalNewEpoch(); return tableOf(v, t, v->w, 0, w);
  }
  uint64_t m = maskw(w);
  if (a.isC()) a.c &= m;
  if (b.isC()) b.c &= m;
  if (a.isC() && b.isC()) return Val(foldBin(k, a.c, b.c, w));
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
  if (comm) {
    if (a.isC()) std::swap(a, b);
    else if (b.n && a.n->id > b.n->id) std::swap(a, b);
  }
  switch (k) {
  case K_SUB:
    if (a.n && a.n == b.n) return Val(0ULL);
    if (b.isC()) return mkBin(K_ADD, a, Val((0 - b.c) & m), w);
    // (x + c) - (x + d), (x+c) - x, x - (x+c)
    {
      Node *xa = a.n, *xb = b.n; uint64_t ca = 0, cb = 0;
      if (xa && xa->k == K_ADD && xa->b->k == K_CONST) { ca = xa->b->v; xa = xa->a; }
      if (xb && xb->k == K_ADD && xb->b->k == K_CONST) { cb = xb->b->v; xb = xb->a; }
      if (xa && xa == xb) return Val((ca - cb) & m);
      if (a.isC() && b.n && cb) return mkBin(K_SUB, Val((a.c - cb) & m), Val(xb), w);
      if (xa && xb && (ca || cb)) return mkBin(K_ADD, mkBin(K_SUB, V(xa), V(xb), w), Val((ca - cb) & m), w);
    }
    // (x + y) - x
    if (a.n && a.n->k == K_ADD) { if (a.n->a == b.n) return child(a.n->b); if (a.n->b == b.n) return child(a.n->a); }
    if (w == 1) return mkBin(K_XOR, a, b, 1);
    break;
  case K_ADD:
    if (isC(b, 0, w)) return a;
    if (w == 1) return mkBin(K_XOR, a, b, 1);
    if (b.isC() && a.n->k == K_ADD && a.n->b->k == K_CONST) return mkBin(K_ADD, child(a.n->a), Val((a.n->b->v + b.c) & m), w);
    if (b.isC() && a.n->k == K_SUB && a.n->a->k == K_CONST) return mkBin(K_SUB, Val((a.n->a->v + b.c) & m), child(a.n->b), w);
    if (b.isC() && a.n->k == K_ITE && !child(a.n->b).n && !child(a.n->c).n)
      return mkIte(child(a.n->a), Val((a.n->b->v + b.c) & m), Val((a.n->c->v + b.c) & m), w);
    if (b.n) { // float constants outward
      if (a.n->k == K_ADD && a.n->b->k == K_CONST) return mkBin(K_ADD, mkBin(K_ADD, child(a.n->a), b, w), child(a.n->b), w);
      if (b.n->k == K_ADD && b.n->b->k == K_CONST) return mkBin(K_ADD, mkBin(K_ADD, child(b.n->a), a, w), child(b.n->b), w);
      if (b.n->k == K_SUB && b.n->b == a.n) return child(b.n->a);
      if (a.n->k == K_SUB && a.n->b == b.n) return child(a.n->a);
    }
    break;
  case K_MUL:
    if (isC(b, 0, w)) return Val(0ULL);
    if (isC(b, 1, w)) return a;
    if (w == 1) return mkBin(K_AND, a, b, 1);
    if (b.isC() && (b.c & (b.c - 1)) == 0) return mkBin(K_SHL, a, Val((uint64_t)__builtin_ctzll(b.c)), w);
    if (b.isC() && a.n->k == K_MUL && a.n->b->k == K_CONST) return mkBin(K_MUL, child(a.n->a), Val((a.n->b->v * b.c) & m), w);
    if (b.isC() && a.n->k == K_ADD && a.n->b->k == K_CONST) return mkBin(K_ADD, mkBin(K_MUL, child(a.n->a), b, w), Val((a.n->b->v * b.c) & m), w);
    if (b.isC() && a.n->k == K_ITE && !child(a.n->b).n && !child(a.n->c).n)
      return mkIte(child(a.n->a), Val((a.n->b->v * b.c) & m), Val((a.n->c->v * b.c) & m), w);
    break;
  case K_UDIV:
    if (isC(b, 1, w)) return a;
    if (b.isC() && b.c && (b.c & (b.c - 1)) == 0) return mkBin(K_LSHR, a, Val((uint64_t)__builtin_ctzll(b.c)), w);
    if (b.isC() && b.c && umax(a, w) < b.c) return Val(0ULL);
    break;
  case K_UREM:
    if (isC(b, 1, w)) return Val(0ULL);
    if (b.isC() && b.c && (b.c & (b.c - 1)) == 0) return mkBin(K_AND, a, Val(b.c - 1), w);
    if (b.isC() && b.c && umax(a, w) < b.c) return a;
    if (b.isC() && b.c && a.n->k == K_ZEXT && a.n->a->w < w && b.c <= maskw(a.n->a->w))
      return mkZext(mkBin(K_UREM, child(a.n->a), b, a.n->a->w), a.n->a->w, w);
    break;
  case K_SDIV:
    if (isC(b, 1, w)) return a;
    if (b.isC() && sextw(b.c, w) > 0 && umax(a, w) < (1ULL << (w - 1))) return mkBin(K_UDIV, a, b, w);
    break;
  case K_SREM:
    if (isC(b, 1, w)) return Val(0ULL);
    if (b.isC() && sextw(b.c, w) > 0 && umax(a, w) < (1ULL << (w - 1))) return mkBin(K_UREM, a, b, w);
    break;
  case K_AND:
    if (isC(b, 0, w)) return Val(0ULL);
    if (isC(b, m, w)) return a;
    if (a.n && a.n == b.n) return a;
    if (b.n && ((a.n->k == K_NOT && a.n->a == b.n) || (b.n->k == K_NOT && b.n->a == a.n))) return Val(0ULL);
    if (b.isC()) {
      if (a.n->k == K_AND && a.n->b->k == K_CONST) return mkBin(K_AND, child(a.n->a), Val(a.n->b->v & b.c), w);
      uint64_t c = b.c;
      if ((c & (c + 1)) == 0) { unsigned l = 64 - __builtin_clzll(c); return mkZext(mkExtract(a, w, 0, l), l, w); }
      // contiguous mask
      unsigned lo = __builtin_ctzll(c); uint64_t c2 = c >> lo;
      if ((c2 & (c2 + 1)) == 0) { unsigned l = 64 - __builtin_clzll(c2); return mkConcat(mkZext(mkExtract(a, w, lo, l), l, w - lo), w - lo, Val(0ULL), lo); }
      if (a.n->k == K_ITE && !child(a.n->b).n && !child(a.n->c).n)
        return mkIte(child(a.n->a), Val(a.n->b->v & c), Val(a.n->c->v & c), w);
      if (a.n->k == K_ZEXT && a.n->a->w < w) return mkZext(mkBin(K_AND, child(a.n->a), Val(c & maskw(a.n->a->w)), a.n->a->w), a.n->a->w, w);
    }
    if (w == 1 && b.n) {
      // absorption
      if (a.n->k == K_AND && (a.n->a == b.n || a.n->b == b.n)) return a;
      if (b.n->k == K_AND && (b.n->a == a.n || b.n->b == a.n)) return b;
      if (a.n->k == K_OR && (a.n->a == b.n || a.n->b == b.n)) return b;
      if (b.n->k == K_OR && (b.n->a == a.n || b.n->b == a.n)) return a;
    }
    break;
  case K_OR:
    if (isC(b, 0, w)) return a;
    if (isC(b, m, w)) return Val(m);
    if (a.n && a.n == b.n) return a;
    if (b.n && ((a.n->k == K_NOT && a.n->a == b.n) || (b.n->k == K_NOT && b.n->a == a.n))) return Val(m);
    if (w == 1 && b.n) {
      if (a.n->k == K_OR && (a.n->a == b.n || a.n->b == b.n)) return a;
      if (b.n->k == K_OR && (b.n->a == a.n || b.n->b == a.n)) return b;
      if (a.n->k == K_AND && (a.n->a == b.n || a.n->b == b.n)) return b;
      if (b.n->k == K_AND && (b.n->a == a.n || b.n->b == a.n)) return a;
    }
    // shl/zext combination: concat(x,0) | zext(y) with y narrow -> concat(x, y)
    if (w > 1) {
      for (int sw = 0; sw < 2; sw++) {
        Val x = sw ? b : a, y = sw ? a : b;
        if (!x.n) continue;
        Val xl; unsigned zl = 0; Val xh;
        Node *n = x.n; bool z = false; unsigned inner = w;
        if (n->k == K_ZEXT && n->a->k == K_CONCAT) { z = true; inner = n->a->w; n = n->a; }
        if (n->k == K_CONCAT) {
          // low zero bits count
          unsigned kz = knownZeroLow(V(n), n->w);
          if (kz > 0 && kz < n->w && umax(y, w) <= maskw(kz)) {
            xh = mkExtract(V(n), n->w, kz, n->w - kz);
            Val r = mkConcat(xh, n->w - kz, mkExtract(y, w, 0, kz), kz);
            return z ? mkZext(r, inner, w) : r;
          }
        }
        (void)zl; (void)xl;
      }
    }
    break;
  case K_XOR:
    if (isC(b, 0, w)) return a;
    if (a.n && a.n == b.n) return Val(0ULL);
    if (isC(b, m, w)) return mkNot(a, w);
    if (b.isC() && a.n->k == K_XOR && a.n->b->k == K_CONST) return mkBin(K_XOR, child(a.n->a), Val(a.n->b->v ^ b.c), w);
    if (b.n && a.n->k == K_XOR) { if (a.n->a == b.n) return child(a.n->b); if (a.n->b == b.n) return child(a.n->a); }
    if (b.n && b.n->k == K_XOR) { if (b.n->a == a.n) return child(b.n->b); if (b.n->b == a.n) return child(b.n->a); }
    break;
  case K_SHL:
    if (isC(a, 0, w)) return Val(0ULL);
    if (b.isC()) {
      if (b.c == 0) return a;
      if (b.c >= w) return Val(0ULL);
      return mkConcat(mkExtract(a, w, 0, w - b.c), w - b.c, Val(0ULL), b.c);
    }
    break;
  case K_LSHR:
    if (isC(a, 0, w)) return Val(0ULL);
    if (b.isC()) {
      if (b.c == 0) return a;
      if (b.c >= w) return Val(0ULL);
      return mkZext(mkExtract(a, w, b.c, w - b.c), w - b.c, w);
    }
    break;
  case K_ASHR:
    if (isC(a, 0, w)) return Val(0ULL);
    if (b.isC()) {
      if (b.c == 0) return a;
      uint64_t s = b.c >= w ? w - 1 : b.c;
      return mkSext(mkExtract(a, w, s, w - s), w - s, w);
    }
    break;
  default: break;
  }
  return Val(intern(k, w, nodeOf(a, w), nodeOf(b, w), nullptr, 0));
}

Val mkCmp(Kind k, Val a, Val b, unsigned w) {
  uint64_t m = maskw(w);
  if (a.isC()) a.c &= m;
  if (b.isC()) b.c &= m;
  if (a.isC() && b.isC()) return Val(foldCmp(k, a.c, b.c, w));
  if (a.n && a.n == b.n) return Val((uint64_t)(k == K_EQ));
  if (k == K_EQ) {
    if (a.isC()) std::swap(a, b);
    else if (b.n && a.n->id > b.n->id) std::swap(a, b);
    if (w == 1) {
      if (b.isC()) return b.c ? a : mkNot(a, 1);
      return mkNot(mkBin(K_XOR, a, b, 1), 1);
    }
    if (b.isC()) {
      Node *n = a.n; uint64_t c = b.c;
      if (c > umax(a, w) || c < umin(a, w)) return Val(0ULL);
      switch (n->k) {
      case K_ZEXT: if (c > maskw(n->a->w)) return Val(0ULL); return mkCmp(K_EQ, child(n->a), Val(c), n->a->w);
      case K_SEXT: { unsigned wi = n->a->w; if (((uint64_t)sextw(c, wi) & m) != c) return Val(0ULL); return mkCmp(K_EQ, child(n->a), Val(c & maskw(wi)), wi); }
      case K_ADD: if (n->b->k == K_CONST) return mkCmp(K_EQ, child(n->a), Val((c - n->b->v) & m), w); break;
      case K_SUB: if (n->a->k == K_CONST) return mkCmp(K_EQ, child(n->b), Val((n->a->v - c) & m), w);
                  if (c == 0) return mkCmp(K_EQ, child(n->a), child(n->b), w); break;
      case K_XOR: if (n->b->k == K_CONST) return mkCmp(K_EQ, child(n->a), Val(n->b->v ^ c), w);
                  if (c == 0) return mkCmp(K_EQ, child(n->a), child(n->b), w); break;
      case K_NOT: return mkCmp(K_EQ, child(n->a), Val(~c & m), w);
      case K_CONCAT: {
        unsigned wl = n->b->w, wh = n->a->w;
        return bAnd(mkCmp(K_EQ, child(n->a), Val((c >> wl) & maskw(wh)), wh), mkCmp(K_EQ, child(n->b), Val(c & maskw(wl)), wl));
      }
      case K_ITE: {
        Val x = child(n->b), y = child(n->c);
        if (x.isC() || y.isC()) return mkIte(child(n->a), mkCmp(K_EQ, x, b, w), mkCmp(K_EQ, y, b, w), 1);
        break;
      }
      default: break;
      }
    } else {
      if (a.n->k == K_ZEXT && b.n->k == K_ZEXT) {
        unsigned wa = a.n->a->w, wb = b.n->a->w, wm = std::max(wa, wb);
        return mkCmp(K_EQ, mkZext(child(a.n->a), wa, wm), mkZext(child(b.n->a), wb, wm), wm);
      }
      if (a.n->k == K_SEXT && b.n->k == K_SEXT && a.n->a->w == b.n->a->w) return mkCmp(K_EQ, child(a.n->a), child(b.n->a), a.n->a->w);
      if (a.n->k == K_CONCAT && b.n->k == K_CONCAT && a.n->b->w == b.n->b->w)
        return bAnd(mkCmp(K_EQ, child(a.n->a), child(b.n->a), a.n->a->w), mkCmp(K_EQ, child(a.n->b), child(b.n->b), a.n->b->w));
      if (a.n->k == K_ADD && b.n->k == K_ADD && a.n->b->k == K_CONST && b.n->b == a.n->b) return mkCmp(K_EQ, child(a.n->a), child(b.n->a), w);
      // x == x + c
      if (b.n->k == K_ADD && b.n->a == a.n && b.n->b->k == K_CONST) return Val((uint64_t)(b.n->b->v == 0));
      if (a.n->k == K_ADD && a.n->a == b.n && a.n->b->k == K_CONST) return Val((uint64_t)(a.n->b->v == 0));
      if (a.n->k == K_ITE && b.n->k == K_ITE && a.n->a == b.n->a)
        return mkIte(child(a.n->a), mkCmp(K_EQ, child(a.n->b), child(b.n->b), w), mkCmp(K_EQ, child(a.n->c), child(b.n->c), w), 1);
    }
    return Val(intern(K_EQ, 1, nodeOf(a, w), nodeOf(b, w), nullptr, 0));
  }
  if (k == K_ULT) {
    if (isC(b, 0, w)) return Val(0ULL);
    if (isC(a, m, w)) return Val(0ULL);
    if (w == 1) { return bAnd(bNot(a), b); }
    if (isC(a, 0, w)) return bNot(mkCmp(K_EQ, b, Val(0ULL), w));
    if (isC(b, 1, w)) return mkCmp(K_EQ, a, Val(0ULL), w);
    uint64_t amx = umax(a, w), amn = umin(a, w), bmx = umax(b, w), bmn = umin(b, w);
    if (amx < bmn) return Val(1ULL);
    if (amn >= bmx) return Val(0ULL);
    if (a.n && b.n && a.n->k == K_ZEXT && b.n->k == K_ZEXT) {
      unsigned wa = a.n->a->w, wb = b.n->a->w, wm = std::max(wa, wb);
      if (wm < w) return mkCmp(K_ULT, mkZext(child(a.n->a), wa, wm), mkZext(child(b.n->a), wb, wm), wm);
    }
    if (a.n && b.isC() && a.n->k == K_ZEXT) return mkCmp(K_ULT, child(a.n->a), b, a.n->a->w); // b<=maskw since not decided above
    if (b.n && a.isC() && b.n->k == K_ZEXT) return mkCmp(K_ULT, a, child(b.n->a), b.n->a->w);
    if (a.n && a.n->k == K_ITE && b.isC()) { Val x = child(a.n->b), y = child(a.n->c); if (x.isC() || y.isC()) return mkIte(child(a.n->a), mkCmp(k, x, b, w), mkCmp(k, y, b, w), 1); }
    if (b.n && b.n->k == K_ITE && a.isC()) { Val x = child(b.n->b), y = child(b.n->c); if (x.isC() || y.isC()) return mkIte(child(b.n->a), mkCmp(k, a, x, w), mkCmp(k, a, y, w), 1); }
    return Val(intern(K_ULT, 1, nodeOf(a, w), nodeOf(b, w), nullptr, 0));
  }
  // SLT
  if (w == 1) return bAnd(a, bNot(b));
  {
    uint64_t half = 1ULL << (w - 1);
    bool ap = umax(a, w) < half, bp = umax(b, w) < half;
    if (ap && bp) return mkCmp(K_ULT, a, b, w);
    if (a.isC() && a.c == half - 1) return Val(0ULL);
    if (b.isC() && b.c == half) return Val(0ULL);
    if (ap && b.isC() && b.c >= half) return Val(0ULL);
    if (bp && a.isC() && a.c >= half) return Val(1ULL);
    if (a.n && b.n && a.n->k == K_SEXT && b.n->k == K_SEXT && a.n->a->w == b.n->a->w) return mkCmp(K_SLT, child(a.n->a), child(b.n->a), a.n->a->w);
    if (a.n && a.n->k == K_SEXT && b.isC()) {
      unsigned wi = a.n->a->w; int64_t c = sextw(b.c, w), lo = -(int64_t)(1ULL << (wi - 1)), hi = (int64_t)(1ULL << (wi - 1)) - 1;
      if (c <= lo) return Val(0ULL); if (c > hi) return Val(1ULL);
      return mkCmp(K_SLT, child(a.n->a), Val((uint64_t)c & maskw(wi)), wi);
    }
    if (b.n && b.n->k == K_SEXT && a.isC()) {
      unsigned wi = b.n->a->w; int64_t c = sextw(a.c, w), lo = -(int64_t)(1ULL << (wi - 1)), hi = (int64_t)(1ULL << (wi - 1)) - 1;
      if (c < lo) return Val(1ULL); if (c >= hi) return Val(0ULL);
      return mkCmp(K_SLT, Val((uint64_t)c & maskw(wi)), child(b.n->a), wi);
    }
    // sign test
    if (b.isC() && b.c == 0 && a.n) return mkExtract(a, w, w - 1, 1);
    if (a.isC() && a.c == m && b.n) return bNot(mkExtract(b, w, w - 1, 1));
    if (a.n && a.n->k == K_ITE && b.isC()) { Val x = child(a.n->b), y = child(a.n->c); if (x.isC() || y.isC()) return mkIte(child(a.n->a), mkCmp(k, x, b, w), mkCmp(k, y, b, w), 1); }
    if (b.n && b.n->k == K_ITE && a.isC()) { Val x = child(b.n->b), y = child(b.n->c); if (x.isC() || y.isC()) return mkIte(child(b.n->a), mkCmp(k, a, x, w), mkCmp(k, a, y, w), 1); }
  }
  return Val(intern(K_SLT, 1, nodeOf(a, w), nodeOf(b, w), nullptr, 0));
}

// ---------------------------------------------------------------- floating point
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t ofD(double d) { uint64_t v; memcpy(&v, &d, 8); if (d != d) v = 0x7ff8000000000000ULL; return v; }
static float asF(uint64_t v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static uint64_t ofF(float d) { uint32_t v; memcpy(&v, &d, 4); if (d != d) v = 0x7fc00000; return v; }

template <class T> static T fop(Kind k, T a, T b) {
  switch (k) {
  case K_FADD: return a + b; case K_FSUB: return a - b; case K_FMUL: return a * b; case K_FDIV: return a / b;
  case K_FREM: return std::fmod(a, b);
  default: abort();
  }
}
template <class T> static T fun(Kind k, T a, unsigned mode) {
  if (k == K_FSQRT) return std::sqrt(a);
  switch (mode) { case RM_FLOOR: return std::floor(a); case RM_CEIL: return std::ceil(a); case RM_TRUNC: return std::trunc(a); case RM_ROUND: return std::round(a); default: return std::nearbyint(a); }
}
static uint64_t foldFBin(Kind k, uint64_t a, uint64_t b, unsigned w) { return w == 64 ? ofD(fop<double>(k, asD(a), asD(b))) : ofF(fop<float>(k, asF(a), asF(b))); }
static uint64_t foldFUn(Kind k, uint64_t a, unsigned w, unsigned mode) { return w == 64 ? ofD(fun<double>(k, asD(a), mode)) : ofF(fun<float>(k, asF(a), mode)); }
static uint64_t foldFCvt(Kind k, uint64_t a, unsigned wf, unsigned wt) {
  switch (k) {
  case K_FP2SI: case K_FP2UI: {
    double d = wf == 64 ? asD(a) : (double)asF(a);
    if (k == K_FP2SI) {
      // x86 semantics: 32-bit and 64-bit cvttsd2si; out of range -> indefinite
      if (wt <= 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return (wt == 32 ? 0x80000000ULL : 0) & maskw(wt); return (uint64_t)(int64_t)(int32_t)d & maskw(wt); }
      if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ULL;
      return (uint64_t)(int64_t)d & maskw(wt);
    } else {
      if (wt <= 32) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0; return (uint64_t)(int64_t)d & maskw(wt); }
      if (d != d) return 0x8000000000000000ULL;
      if (d < 0) return (d > -9223372036854775808.0) ? (uint64_t)(int64_t)d : 0x8000000000000000ULL;
      if (d >= 18446744073709551616.0) return 0;
      return (uint64_t)d;
    }
  }
  case K_SI2FP: { int64_t x = sextw(a, wf); return wt == 64 ? ofD((double)x) : ofF((float)x); }
  case K_UI2FP: { uint64_t x = a & maskw(wf); return wt == 64 ? ofD((double)x) : ofF((float)x); }
  case K_FPCVT: if (wf == wt) return a; return wt == 64 ? ofD((double)asF(a)) : ofF((float)asD(a));
  default: abort();
  }
}
static Val mkFBinRaw(Kind k, Val a, Val b, unsigned w);
template <class F> static Val tabulate(Node *v, unsigned w, F f) { // an operation that depends on one small variable only
  std::vector<uint64_t> t(1u << v->w), m(v->v + 1, 0); for (uint64_t x = 0; x < t.size(); x++) { m[v->v] = x; evalNewEpoch(); t[x] = f(m); } evalNewEpoch(); return tableOf(v, t, v->w, 0, w);
}
// ---- doubles that are exactly x * 2^k for a 64-bit integer expression x of known small range: computed as integers.
// Sound because such sums, differences and products that stay within 53 bits are exact in IEEE arithmetic; a result
// that could be -0.0 is never represented this way (x = 0 stands for +0.0).
struct Fix { Val x; int k; int64_t lo, hi; };
static std::unordered_map<uint32_t, std::pair<int64_t, int64_t>> g_srange;
static bool srange(Val v, unsigned w, int64_t &lo, int64_t &hi, int depth = 0) {
  if (v.isC()) { lo = hi = sextw(v.c, w); return true; }
  Node *n = v.n; auto it = g_srange.find(n->id); if (it != g_srange.end()) { lo = it->second.first; hi = it->second.second; return true; }
  int64_t a, b, c, d; bool ok = false; const int64_t L = 1LL << 61;
  if (depth < 200) switch (n->k) {
  case K_SEXT: ok = srange(child(n->a), n->a->w, lo, hi, depth + 1); break;
  case K_ADD: ok = srange(child(n->a), w, a, b, depth + 1) && srange(child(n->b), w, c, d, depth + 1) && a > -L && b < L && c > -L && d < L; if (ok) { lo = a + c; hi = b + d; } break;
  case K_SUB: ok = srange(child(n->a), w, a, b, depth + 1) && srange(child(n->b), w, c, d, depth + 1) && a > -L && b < L && c > -L && d < L; if (ok) { lo = a - d; hi = b - c; } break;
  case K_ITE: ok = srange(child(n->b), w, a, b, depth + 1) && srange(child(n->c), w, c, d, depth + 1); if (ok) { lo = std::min(a, c); hi = std::max(b, d); } break;
  default: break;
  }
  if (ok && w < 64 && (lo < -(1LL << (w - 1)) || hi >= (1LL << (w - 1)))) ok = false;
  if (!ok) { uint64_t u = umax(v, w); if (w < 64 ? u < (1ULL << (w - 1)) : u < (1ULL << 63)) { lo = 0; hi = (int64_t)u; } else if (w < 64) { lo = -(1LL << (w - 1)); hi = (1LL << (w - 1)) - 1; } else { lo = INT64_MIN; hi = INT64_MAX; } }
  g_srange[n->id] = {lo, hi}; return true;
}
static const int64_t FIXLIM = 1LL << 53;
static bool fixDec(Val a, Fix &f, int depth = 0) {
  if (a.isC()) {
    double d = asD(a.c); if (a.c == 0) { f = Fix{Val(0ULL), 0, 0, 0}; return true; }
    if (!(std::fabs(d) > 1e-60 && std::fabs(d) < 1e60)) return false;
    int e; double m = std::frexp(d, &e); int64_t x = (int64_t)std::ldexp(m, 53); int k = e - 53; while (!(x & 1)) { x /= 2; k++; }
    while (k > 0 && x < (1LL << 51) && x > -(1LL << 51)) { x *= 2; k--; }
    f = Fix{Val((uint64_t)x), k, x, x}; return true;
  }
  Node *n = a.n; if (n->w != 64) return false;
  if (n->k == K_SI2FP || n->k == K_UI2FP) {
    Val in = child(n->a); unsigned wi = n->w2; Val x = wi == 64 ? in : n->k == K_SI2FP ? mkSext(in, wi, 64) : mkZext(in, wi, 64);
    if (n->k == K_UI2FP && wi == 64 && umax(in, 64) > (uint64_t)FIXLIM) return false;
    int64_t lo, hi; srange(x, 64, lo, hi); if (lo < -FIXLIM || hi > FIXLIM) return false; f = Fix{x, 0, lo, hi}; return true;
  }
  if (n->k == K_FMUL) { // canonical scaled form
    Val c = child(n->b), o = child(n->a); if (!c.isC()) std::swap(c, o); if (!c.isC() || !o.n || o.n->k != K_SI2FP) return false;
    int e; if (std::frexp(asD(c.c), &e) != 0.5 || e > 100 || e < -100) return false; if (!fixDec(o, f, depth + 1)) return false; f.k += e - 1; return true;
  }
  if (n->k == K_ITE && depth < 40) {
    Fix g, h; if (!fixDec(child(n->b), g, depth + 1) || !fixDec(child(n->c), h, depth + 1)) return false;
    int k = std::min(g.lo == 0 && g.hi == 0 ? h.k : g.k, h.lo == 0 && h.hi == 0 ? g.k : h.k); auto sh = [&](Fix &q) { if (q.lo == 0 && q.hi == 0) { q.k = k; return true; } int d = q.k - k; if (d > 50) return false; if (d < 0) return false; if (std::max(std::llabs(q.lo), std::llabs(q.hi)) > (FIXLIM >> d)) return false; q.x = mkBin(K_SHL, q.x, Val((uint64_t)d), 64); q.lo <<= d; q.hi <<= d; q.k = k; return true; };
    if (!sh(g) || !sh(h)) return false; f = Fix{mkIte(child(n->a), g.x, h.x, 64), k, std::min(g.lo, h.lo), std::max(g.hi, h.hi)}; return true;
  }
  return false;
}
static Val fixEnc(const Fix &f) {
  if (f.x.isC()) return Val(ofD(std::ldexp((double)(int64_t)f.x.c, f.k)));
  g_srange.emplace(f.x.n->id, std::make_pair(f.lo, f.hi));
  // convert at the smallest width that holds the range
  unsigned wi = 8; while (wi < 64 && (f.lo < -(1LL << (wi - 1)) || f.hi >= (1LL << (wi - 1)))) wi *= 2;
  if (wi < 64) { Val e = mkSext(mkExtract(f.x, 64, 0, wi), wi, 64); if (e.n) g_srange[e.n->id] = {f.lo, f.hi}; }
  Val c = wi == 64 ? mkFCvt(K_SI2FP, f.x, 64, 64) : mkFCvt(K_SI2FP, mkExtract(f.x, 64, 0, wi), wi, 64); if (f.k == 0) return c;
  return mkFBinRaw(K_FMUL, c, Val(ofD(std::ldexp(1.0, f.k))), 64);
}
static bool fixAlign(Fix &a, Fix &b) {
  if (a.lo == 0 && a.hi == 0) { a.k = b.k; return true; } if (b.lo == 0 && b.hi == 0) { b.k = a.k; return true; }
  Fix &h = a.k > b.k ? a : b; int k = std::min(a.k, b.k), d = h.k - k; if (d == 0) return true; if (d > 50) return false;
  int64_t m = std::max(std::llabs(h.lo), std::llabs(h.hi)); if (m > (FIXLIM >> d)) return false;
  h.x = mkBin(K_SHL, h.x, Val((uint64_t)d), 64); if (h.x.n) g_srange.emplace(h.x.n->id, std::make_pair(h.lo << d, h.hi << d)); h.lo *= 1LL << d; h.hi *= 1LL << d; h.k = k; return true;
}
static bool fixBin(Kind k, Val a, Val b, Val &out) {
  Fix x, y; if (!fixDec(a, x) || !fixDec(b, y)) return false;
  if (k == K_FADD || k == K_FSUB) {
    if (!fixAlign(x, y)) return false; Fix r; r.k = x.k; r.lo = k == K_FADD ? x.lo + y.lo : x.lo - y.hi; r.hi = k == K_FADD ? x.hi + y.hi : x.hi - y.lo; if (r.lo < -FIXLIM || r.hi > FIXLIM) return false;
    r.x = mkBin(k == K_FADD ? K_ADD : K_SUB, x.x, y.x, 64); out = fixEnc(r); return true;
  }
  if (k == K_FDIV) { // by a positive power of two
    if (!b.isC()) return false; int e; if (std::frexp(asD(b.c), &e) != 0.5 || e > 50 || e < -50) return false; x.k -= e - 1; if (x.k < -90 || x.k > 90) return false; out = fixEnc(x); return true;
  }
  if (k != K_FMUL) return false;
  bool same = a.n && a.n == b.n, pos = x.lo >= 0 && y.lo >= 0, nz = (x.lo > 0 || x.hi < 0) && (y.lo > 0 || y.hi < 0); if (!same && !pos && !nz) return false;
  auto mag = [](const Fix &f) { return (__int128)std::max(std::llabs(f.lo), std::llabs(f.hi)); }; if (mag(x) * mag(y) > FIXLIM) return false;
  Fix r; r.k = x.k + y.k; if (r.k < -90 || r.k > 90) return false;
  if (b.isC() && y.lo == 1) { r = x; r.k = x.k + y.k; out = fixEnc(r); return true; } if (a.isC() && x.lo == 1) { int kk = r.k; r = y; r.k = kk; out = fixEnc(r); return true; }
  int64_t p[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; r.lo = *std::min_element(p, p + 4); r.hi = *std::max_element(p, p + 4); if (same) r.lo = (x.lo <= 0 && x.hi >= 0) ? 0 : std::min(x.lo * x.lo, x.hi * x.hi);
  unsigned w = 2; while (w < 64 && (1LL << (w - 1)) <= std::max(std::llabs(p[0]), std::max(std::llabs(p[1]), std::max(std::llabs(p[2]), std::llabs(p[3]))))) w++;
  Val m = mkBin(K_MUL, mkExtract(x.x, 64, 0, w), mkExtract(y.x, 64, 0, w), w); r.x = w == 64 ? m : mkSext(m, w, 64); out = fixEnc(r); return true;
}
Val mkFBin(Kind k, Val a, Val b, unsigned w) {
  if (a.isC() && b.isC()) return Val(foldFBin(k, a.c, b.c, w));
  // x + (-y) is x - y, (-x) * y is -(x * y), exactly
  auto neg = [&](Val v, Val &o) { if (!v.n || v.n->k != K_XOR) return false; Val c = child(v.n->b), x = child(v.n->a); if (!c.isC()) std::swap(c, x); if (!c.isC() || c.c != 1ULL << (w - 1)) return false; o = x; return true; };
  Val o; const uint64_t sg = 1ULL << (w - 1);
  if (k == K_FADD && neg(b, o)) return mkFBin(K_FSUB, a, o, w); if (k == K_FADD && neg(a, o)) return mkFBin(K_FSUB, b, o, w); if (k == K_FSUB && neg(b, o)) return mkFBin(K_FADD, a, o, w);
  if ((k == K_FMUL || k == K_FDIV) && neg(a, o)) return mkBin(K_XOR, mkFBin(k, o, b, w), Val(sg), w); if ((k == K_FMUL || k == K_FDIV) && neg(b, o)) return mkBin(K_XOR, mkFBin(k, a, o, w), Val(sg), w);
  Val r; if (w == 64 && k != K_FREM && fixBin(k, a, b, r)) return r;
  if (Node *v = onlyVar(a, b)) return tabulate(v, w, [&](const std::vector<uint64_t> &m) { return foldFBin(k, evalVal(a, m), evalVal(b, m), w); });
  return mkFBinRaw(k, a, b, w);
}
static Val mkFBinRaw(Kind k, Val a, Val b, unsigned w) {
  if (a.isC() && b.isC()) return Val(foldFBin(k, a.c, b.c, w));
  if ((k == K_FADD || k == K_FMUL)) { if (a.isC() || (b.n && a.n && a.n->id > b.n->id)) std::swap(a, b); }
  return Val(intern(k, w, nodeOf(a, w), nodeOf(b, w), nullptr, 0));
}
Val mkFma(Val a, Val b, Val c, unsigned w) { // fmuladd may be unfused: x86-64 baseline has no FMA
  return mkFBin(K_FADD, mkFBin(K_FMUL, a, b, w), c, w);
}
Val mkFUn(Kind k, Val a, unsigned w, unsigned mode) {
  if (a.isC()) return Val(foldFUn(k, a.c, w, mode));
  Fix f; if (k == K_FROUND && w == 64 && fixDec(a, f)) { if (f.k >= 0) return a; if (f.k > -60 && (mode == RM_FLOOR || (f.lo >= 0 && mode == RM_TRUNC))) { Fix r; int s = -f.k; r.k = 0; r.lo = f.lo >> s; r.hi = f.hi >> s; r.x = mkBin(K_ASHR, f.x, Val((uint64_t)s), 64); return fixEnc(r); } }
  if (Node *v = onlyVar(a, Val(0ULL))) return tabulate(v, w, [&](const std::vector<uint64_t> &m) { return foldFUn(k, evalVal(a, m), w, mode); });
  return Val(intern(k, w, a.n, nullptr, nullptr, mode));
}
Val mkFCvt(Kind k, Val a, unsigned wf, unsigned wt) {
  if (k == K_FPCVT && wf == wt) return a;
  if (a.isC()) return Val(foldFCvt(k, a.c, wf, wt));
  Fix f; if ((k == K_FP2SI || k == K_FP2UI) && wf == 64 && fixDec(a, f) && f.k > -60 && f.k < 8) { // truncation, when in range
    auto up = [&](int64_t v) { return f.k >= 0 ? v * (1LL << f.k) : v / (1LL << -f.k); }; int64_t lo = up(f.lo), hi = up(f.hi); bool in = k == K_FP2UI ? lo >= 0 && (wt == 64 || hi <= (int64_t)maskw(wt)) : wt == 64 || (lo >= -(1LL << (wt - 1)) && hi < (1LL << (wt - 1)));
    if (in) { Val x = f.x; if (f.k > 0) x = mkBin(K_SHL, x, Val((uint64_t)f.k), 64); else if (f.k < 0) { Val s((uint64_t)-f.k); Val p = mkBin(K_ASHR, x, s, 64); if (f.lo < 0) p = mkIte(mkCmp(K_SLT, x, Val(0ULL), 64), mkBin(K_SUB, Val(0ULL), mkBin(K_ASHR, mkBin(K_SUB, Val(0ULL), x, 64), s, 64), 64), p, 64); x = p; } return mkExtract(x, 64, 0, wt); } }
  if ((k == K_SI2FP || k == K_UI2FP) && a.n->k == K_ITE && !child(a.n->b).n && !child(a.n->c).n)
    return mkIte(child(a.n->a), mkFCvt(k, child(a.n->b), wf, wt), mkFCvt(k, child(a.n->c), wf, wt), wt);
  if (k != K_SI2FP && k != K_UI2FP) if (Node *v = onlyVar(a, Val(0ULL))) return tabulate(v, wt, [&](const std::vector<uint64_t> &m) { return foldFCvt(k, evalVal(a, m), wf, wt); });
  return Val(intern(k, wt, a.n, nullptr, nullptr, 0, wf));
}
// an upper bound of |a| if a is known to be finite and of moderate size, else a negative number
static double fmag(Val a, int depth = 0) {
  if (a.isC()) { double d = std::fabs(asD(a.c)); return d < 1e300 ? d : -1; }
  if (a.n->w != 64 || depth > 60) return -1; Fix f; if (fixDec(a, f)) return std::ldexp((double)std::max(std::llabs(f.lo), std::llabs(f.hi)), f.k);
  double x, y; switch (a.n->k) {
  case K_SI2FP: case K_UI2FP: return 2e19;
  case K_FADD: case K_FSUB: x = fmag(child(a.n->a), depth + 1); y = fmag(child(a.n->b), depth + 1); return x < 0 || y < 0 || x + y > 1e300 ? -1 : (x + y) * 1.001;
  case K_FMUL: x = fmag(child(a.n->a), depth + 1); y = fmag(child(a.n->b), depth + 1); return x < 0 || y < 0 || x * y > 1e300 ? -1 : x * y * 1.001;
  case K_FDIV: { x = fmag(child(a.n->a), depth + 1); if (x < 0) return -1; double l; if (child(a.n->b).isC()) l = std::fabs(asD(child(a.n->b).c)); else if (fixDec(child(a.n->b), f) && f.lo > 0) l = std::ldexp((double)f.lo, f.k); else return -1; if (!(l > 1e-100)) return -1; x = x / l * 1.001; return x > 1e300 ? -1 : x; }
  case K_FROUND: x = fmag(child(a.n->a), depth + 1); return x < 0 ? -1 : x + 1;
  case K_ITE: x = fmag(child(a.n->b), depth + 1); y = fmag(child(a.n->c), depth + 1); return x < 0 || y < 0 ? -1 : std::max(x, y);
  default: return -1;
  }
}
static Val fNan(Val a, unsigned w) {
  uint64_t inf = w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL;
  if (a.isC()) return Val((uint64_t)((a.c & maskw(w - 1)) > inf));
  if (a.n->k == K_SI2FP || a.n->k == K_UI2FP) return Val(0ULL);
  if (w == 64 && fmag(a) >= 0) return Val(0ULL);
  return mkCmp(K_ULT, Val(inf), mkExtract(a, w, 0, w - 1), w - 1);
}
// if both are integer conversions that are exact, compare as integers
static bool exactInt(Val a, unsigned w, Val &x, unsigned &wx, bool &sg) {
  if (a.isC()) {
    double d = w == 64 ? asD(a.c) : (double)asF(a.c);
    if (d != std::floor(d) || std::fabs(d) > 9007199254740992.0) return false;
    x = Val((uint64_t)(int64_t)d); wx = 64; sg = true; return true;
  }
  if (a.n->k != K_SI2FP && a.n->k != K_UI2FP) return false;
  unsigned wi = a.n->w2; unsigned lim = w == 64 ? 53 : 24;
  sg = a.n->k == K_SI2FP;
  Val in = child(a.n->a);
  if (wi > lim) {
    if (sg) { if (umax(in, wi) > (1ULL << lim)) { if (!(in.n && in.n->k == K_SEXT && in.n->a->w <= lim)) return false; } }
    else if (umax(in, wi) > (1ULL << lim)) return false;
  }
  x = sg ? mkSext(in, wi, 64) : mkZext(in, wi, 64); wx = 64; return true;
}
static Val fEq(Val a, Val b, unsigned w) { // ordered equal given no NaN
  Val bothz = mkCmp(K_EQ, mkExtract(mkBin(K_OR, a, b, w), w, 0, w - 1), Val(0ULL), w - 1);
  return bOr(mkCmp(K_EQ, a, b, w), bothz);
}
static Val fLt(Val a, Val b, unsigned w) {
  Val sa = mkExtract(a, w, w - 1, 1), sb = mkExtract(b, w, w - 1, 1);
  Val bothz = mkCmp(K_EQ, mkExtract(mkBin(K_OR, a, b, w), w, 0, w - 1), Val(0ULL), w - 1);
  return mkIte(sa, mkIte(sb, mkCmp(K_ULT, b, a, w), bNot(bothz), 1), mkIte(sb, Val(0ULL), mkCmp(K_ULT, a, b, w), 1), 1);
}
Val mkFCmp(unsigned p, Val a, Val b, unsigned w) {
  // llvm: bit0 eq(1) bit1 gt(2) bit2 lt(4) bit3 unordered(8)
  if (p == 0) return Val(0ULL);
  if (p == 15) return Val(1ULL);
  Val uno, eq, lt, gt;
  Val xa, xb; unsigned wa, wb; bool s1, s2;
  if (a.n != b.n) if (Node *v = onlyVar(a, b)) return tabulate(v, 1, [&](const std::vector<uint64_t> &m) { uint64_t p1 = evalVal(a, m), p2 = evalVal(b, m); double x = w == 64 ? asD(p1) : asF(p1), y = w == 64 ? asD(p2) : asF(p2); bool u = x != x || y != y; return (uint64_t)(u ? p >> 3 & 1 : ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y)); });
  if (a.n && a.n == b.n) { uno = fNan(a, w); eq = Val(1ULL); lt = gt = Val(0ULL); }
  else if (Fix fa, fb; w == 64 && fixDec(a, fa) && fixDec(b, fb) && fixAlign(fa, fb)) { uno = Val(0ULL); eq = mkCmp(K_EQ, fa.x, fb.x, 64); lt = mkCmp(K_SLT, fa.x, fb.x, 64); gt = mkCmp(K_SLT, fb.x, fa.x, 64); }
  else if (exactInt(a, w, xa, wa, s1) && exactInt(b, w, xb, wb, s2)) {
    uno = Val(0ULL); eq = mkCmp(K_EQ, xa, xb, 64); lt = mkCmp(K_SLT, xa, xb, 64); gt = mkCmp(K_SLT, xb, xa, 64);
  } else {
    uno = bOr(fNan(a, w), fNan(b, w));
    if (p & 1) eq = fEq(a, b, w);
    if (p & 4) lt = fLt(a, b, w);
    if (p & 2) gt = fLt(b, a, w);
  }
  unsigned rel = p & 7;
  Val r(0ULL);
  if (rel == 7) r = Val(1ULL);
  else {
    if (rel & 1) r = bOr(r, eq);
    if (rel & 2) r = bOr(r, gt);
    if (rel & 4) r = bOr(r, lt);
  }
  if (p & 8) return bOr(uno, r);
  return bAnd(bNot(uno), r);
}

// ---------------------------------------------------------------- evaluation
void evalNewEpoch() { g_epoch++; }
static uint64_t ev(Node *n, const std::vector<uint64_t> &m) {
  if (n->k == K_CONST) return n->v;
  if (n->epoch == g_epoch) return n->val;
  uint64_t r = 0;
  switch (n->k) {
  case K_VAR: r = n->v < m.size() ? m[n->v] & maskw(n->w) : 0; break;
  case K_EQ: case K_ULT: case K_SLT: r = foldCmp(n->k, ev(n->a, m), ev(n->b, m), n->a->w); break;
  case K_ITE: r = ev(n->a, m) ? ev(n->b, m) : ev(n->c, m); break;
  case K_CONCAT: r = (ev(n->a, m) << n->b->w) | ev(n->b, m); break;
  case K_EXTRACT: r = (ev(n->a, m) >> n->v) & maskw(n->w); break;
  case K_ZEXT: r = ev(n->a, m); break;
  case K_SEXT: r = (uint64_t)sextw(ev(n->a, m), n->a->w) & maskw(n->w); break;
  case K_NOT: r = ~ev(n->a, m) & maskw(n->w); break;
  case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: r = foldFBin(n->k, ev(n->a, m), ev(n->b, m), n->w); break;
  case K_FSQRT: case K_FROUND: r = foldFUn(n->k, ev(n->a, m), n->w, n->v); break;
  case K_FP2SI: case K_FP2UI: case K_SI2FP: case K_UI2FP: case K_FPCVT: r = foldFCvt(n->k, ev(n->a, m), n->w2, n->w); break;
  default: r = foldBin(n->k, ev(n->a, m), ev(n->b, m), n->w); break;
  }
  n->epoch = g_epoch; n->val = r;
  return r;
}
uint64_t evalNode(Node *n, const std::vector<uint64_t> &m) { return ev(n, m); }

static const char *kn[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<s", "ite", "concat", "extract", "zext", "sext", "~", "fadd", "fsub", "fmul", "fdiv", "fsqrt", "fround", "fp2si", "fp2ui", "si2fp", "ui2fp", "fpcvt", "fma", "frem"};
std::string exprStr(Val v, int d) {
  char buf[64];
  if (v.isC()) { snprintf(buf, 64, "0x%llx", (unsigned long long)v.c); return buf; }
  Node *n = v.n;
  if (n->k == K_CONST) { snprintf(buf, 64, "0x%llx", (unsigned long long)n->v); return buf; }
  if (n->k == K_VAR) { snprintf(buf, 64, "v%llu:%d", (unsigned long long)n->v, n->w); return buf; }
  if (d <= 0) return "...";
  std::string s = std::string("(") + kn[n->k];
  if (n->k == K_EXTRACT) { snprintf(buf, 64, "[%llu+%d]", (unsigned long long)n->v, n->w); s += buf; }
  if (n->a) s += " " + exprStr(Val(n->a), d - 1);
  if (n->b) s += " " + exprStr(Val(n->b), d - 1);
  if (n->c) s += " " + exprStr(Val(n->c), d - 1);
  return s + ")";
}

// the same expression over other variables
#include <unordered_map>
static Val substRec(Node *n, unsigned (*map)(unsigned), std::unordered_map<Node *, Val> &memo) {
  if (n->k == K_CONST) return Val(n->v);
  if (n->k == K_VAR) { unsigned i = map((unsigned)n->v); return i == n->v ? Val(n) : mkVar(i, n->w); }
  auto it = memo.find(n); if (it != memo.end()) return it->second;
  Val a, b, c; if (n->a) a = substRec(n->a, map, memo); if (n->b) b = substRec(n->b, map, memo); if (n->c) c = substRec(n->c, map, memo); Val r;
  switch (n->k) {
  case K_EQ: case K_ULT: case K_SLT: r = mkCmp(n->k, a, b, n->a->w); break;
  case K_ITE: r = mkIte(a, b, c, n->w); break;
  case K_CONCAT: r = mkConcat(a, n->a->w, b, n->b->w); break;
  case K_EXTRACT: r = mkExtract(a, n->a->w, (unsigned)n->v, n->w); break;
  case K_ZEXT: r = mkZext(a, n->a->w, n->w); break;
  case K_SEXT: r = mkSext(a, n->a->w, n->w); break;
  case K_NOT: r = mkNot(a, n->w); break;
  case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: r = mkFBin(n->k, a, b, n->w); break;
  case K_FSQRT: case K_FROUND: r = mkFUn(n->k, a, n->w, (unsigned)n->v); break;
  case K_FP2SI: case K_FP2UI: case K_SI2FP: case K_UI2FP: case K_FPCVT: r = mkFCvt(n->k, a, n->w2, n->w); break;
  case K_FMA: r = mkFma(a, b, c, n->w); break;
  default: r = mkBin(n->k, a, b, n->w);
  }
  return memo[n] = r;
}
Val substVars(Val v, unsigned (*map)(unsigned)) { std::unordered_map<Node *, Val> memo; return v.n ? substRec(v.n, map, memo) : v; }
