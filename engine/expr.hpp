// Hash-consed bit-vector expression DAG with aggressive local simplification.
// A Val with n==nullptr is the constant c; otherwise n is a DAG node.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <type_traits>
#include <string>

enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_SLT, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_NOT,
  // floating point over bit patterns (w = 32 or 64)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FSQRT, K_FROUND /*c=mode*/,
  K_FP2SI, K_FP2UI, K_SI2FP, K_UI2FP, K_FPCVT, K_FMA, K_FREM
};
enum RMode { RM_FLOOR = 0, RM_CEIL = 1, RM_TRUNC = 2, RM_ROUND = 3 /*half away*/, RM_RINT = 4 /*half even*/ };

struct VarSet { uint32_t n; const uint64_t *w; uint32_t id; };

struct Node {
  Kind k; uint8_t w; uint8_t w2; uint8_t isfp; uint8_t kz; // kz: known zero low bits + 1, 0 if not computed
  uint32_t id; uint32_t hash; uint32_t epoch;
  Node *a, *b, *c;
  uint64_t v;         // const value / extract offset / var index / rounding mode
  uint64_t val;       // evaluation memo
  const VarSet *vs;
  void *z3;
  Node *next;
};

struct Val {
  Node *n; uint64_t c;
  Val() : n(nullptr), c(0) {}
  Val(uint64_t c_) : n(nullptr), c(c_) {}
  template <class T, class = typename std::enable_if<std::is_same<T, Node *>::value>::type>
  Val(T n_) : n(n_), c(0) {}
  bool isC() const { return n == nullptr; }
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

Val mkVar(unsigned idx, unsigned w);
Val mkBin(Kind k, Val a, Val b, unsigned w);     // arithmetic / bitwise, w = operand width
Val mkCmp(Kind k, Val a, Val b, unsigned w);     // EQ, ULT, SLT: result width 1
Val mkNot(Val a, unsigned w);
Val substVars(Val v, unsigned (*map)(unsigned));
Val mkIte(Val c, Val a, Val b, unsigned w);
Val mkConcat(Val hi, unsigned wh, Val lo, unsigned wl);
Val mkExtract(Val a, unsigned wa, unsigned off, unsigned w);
Val mkZext(Val a, unsigned wa, unsigned w);
Val mkSext(Val a, unsigned wa, unsigned w);
Val mkFBin(Kind k, Val a, Val b, unsigned w);
Val mkFma(Val a, Val b, Val c, unsigned w);
Val mkFUn(Kind k, Val a, unsigned w, unsigned mode);
Val mkFCvt(Kind k, Val a, unsigned wfrom, unsigned wto);
Val mkFCmp(unsigned llvmPred, Val a, Val b, unsigned w); // llvm predicate numbering 0..15
inline Val bAnd(Val a, Val b) { return mkBin(K_AND, a, b, 1); }
inline Val bOr(Val a, Val b) { return mkBin(K_OR, a, b, 1); }
inline Val bNot(Val a) { return mkNot(a, 1); }

// evaluation under an assignment (vector indexed by var; missing = 0)
uint64_t evalNode(Node *n, const std::vector<uint64_t> &m);
void evalNewEpoch();
inline uint64_t evalVal(Val v, const std::vector<uint64_t> &m) { return v.n ? evalNode(v.n, m) : v.c; }
Node *nodeOf(Val v, unsigned w);
bool vsIntersects(const VarSet *a, const VarSet *b);
std::string exprStr(Val v, int depth = 6);
unsigned knownZeroLow(Val v, unsigned w); // number of low bits known zero
extern uint64_t g_nodes;
