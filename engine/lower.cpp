// LLVM bitcode -> internal IR
#include "ir.hpp"
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <algorithm>

using namespace llvm;
typedef ::Function IFn;
typedef ::Module IMod;

namespace {
const DataLayout *DL;
IMod *M;
std::map<const GlobalVariable *, int> gvIdx;
std::map<const llvm::Function *, int> fIdx;
std::map<std::pair<std::string, uint32_t>, uint32_t> locIdx;

struct Unsup { std::string why; };

void lanes(Type *T, std::vector<uint16_t> &out) {
  if (T->isVoidTy()) return;
  if (auto *I = dyn_cast<IntegerType>(T)) { unsigned w = I->getBitWidth(); if (w > 64) throw Unsup{"int width " + std::to_string(w)}; out.push_back(w); return; }
  if (T->isPointerTy()) { out.push_back(64); return; }
  if (T->isDoubleTy()) { out.push_back(64); return; }
  if (T->isFloatTy()) { out.push_back(32); return; }
  if (auto *S = dyn_cast<StructType>(T)) { for (Type *E : S->elements()) lanes(E, out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { for (uint64_t i = 0; i < A->getNumElements(); i++) lanes(A->getElementType(), out); return; }
  if (auto *V = dyn_cast<FixedVectorType>(T)) { for (unsigned i = 0; i < V->getNumElements(); i++) lanes(V->getElementType(), out); return; }
  std::string s; raw_string_ostream os(s); T->print(os);
  throw Unsup{"type " + os.str()};
}
void laneOffs(Type *T, uint64_t off, std::vector<uint64_t> &out) {
  if (auto *S = dyn_cast<StructType>(T)) { const StructLayout *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) laneOffs(S->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t sz = DL->getTypeAllocSize(A->getElementType()); for (uint64_t i = 0; i < A->getNumElements(); i++) laneOffs(A->getElementType(), off + i * sz, out); return; }
  if (auto *V = dyn_cast<FixedVectorType>(T)) { uint64_t sz = DL->getTypeStoreSize(V->getElementType()); for (unsigned i = 0; i < V->getNumElements(); i++) out.push_back(off + i * sz); return; }
  out.push_back(off);
}
unsigned nlanes(Type *T) { std::vector<uint16_t> v; lanes(T, v); return v.size(); }

Opnd imm(uint64_t v) { Opnd o; o.imm = true; o.undef = 0; o.v = v; return o; }
Opnd undefO() { Opnd o; o.imm = true; o.undef = 1; o.v = 0; return o; }
Opnd regO(uint32_t r) { Opnd o; o.imm = false; o.undef = 0; o.v = r; return o; }

uint64_t gvAddr(const GlobalVariable *G) { return ((uint64_t)(gvIdx.at(G) + 1) << 32) + OBJ_OFF; }

void constLanes(const Constant *C, std::vector<Opnd> &out);
uint64_t constScalar(const Constant *C) {
  std::vector<Opnd> o; constLanes(C, o);
  if (o.size() != 1) throw Unsup{"const scalar"};
  return o[0].v;
}
void constLanes(const Constant *C, std::vector<Opnd> &out) {
  if (isa<UndefValue>(C)) { unsigned n = nlanes(C->getType()); for (unsigned i = 0; i < n; i++) out.push_back(undefO()); return; }
  if (auto *I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) throw Unsup{"wide const"}; out.push_back(imm(I->getZExtValue())); return; }
  if (auto *F = dyn_cast<ConstantFP>(C)) { APInt b = F->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) throw Unsup{"wide fp const"}; out.push_back(imm(b.getZExtValue())); return; }
  if (isa<ConstantPointerNull>(C)) { out.push_back(imm(0)); return; }
  if (isa<ConstantAggregateZero>(C)) { unsigned n = nlanes(C->getType()); for (unsigned i = 0; i < n; i++) out.push_back(imm(0)); return; }
  if (auto *A = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < A->getNumElements(); i++) constLanes(A->getElementAsConstant(i), out); return; }
  if (auto *A = dyn_cast<ConstantAggregate>(C)) { for (const Use &u : A->operands()) constLanes(cast<Constant>(u), out); return; }
  if (auto *F = dyn_cast<llvm::Function>(C)) { out.push_back(imm(FN_BASE + 16ULL * fIdx.at(F))); return; }
  if (auto *G = dyn_cast<GlobalVariable>(C)) { out.push_back(imm(gvAddr(G))); return; }
  if (auto *A = dyn_cast<GlobalAlias>(C)) { constLanes(A->getAliasee(), out); return; }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    unsigned op = E->getOpcode();
    auto s = [&](unsigned i) { return constScalar(E->getOperand(i)); };
    unsigned w = 64; { std::vector<uint16_t> ws; lanes(E->getType(), ws); if (ws.size() != 1) throw Unsup{"vector constexpr"}; w = ws[0]; }
    switch (op) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      if (!cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off)) throw Unsup{"gep constexpr"};
      out.push_back(imm(s(0) + off.getZExtValue())); return;
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: out.push_back(imm(s(0) & maskw(w))); return;
    case Instruction::Trunc: out.push_back(imm(s(0) & maskw(w))); return;
    case Instruction::Add: out.push_back(imm((s(0) + s(1)) & maskw(w))); return;
    case Instruction::Sub: out.push_back(imm((s(0) - s(1)) & maskw(w))); return;
    case Instruction::Mul: out.push_back(imm((s(0) * s(1)) & maskw(w))); return;
    case Instruction::And: out.push_back(imm((s(0) & s(1)) & maskw(w))); return;
    case Instruction::Or: out.push_back(imm((s(0) | s(1)) & maskw(w))); return;
    case Instruction::Xor: out.push_back(imm((s(0) ^ s(1)) & maskw(w))); return;
    case Instruction::LShr: out.push_back(imm(s(0) >> s(1))); return;
    case Instruction::Shl: out.push_back(imm((s(0) << s(1)) & maskw(w))); return;
    case Instruction::ZExt: out.push_back(imm(s(0))); return;
    case Instruction::ICmp: {
      uint64_t a = s(0), b = s(1);
      switch (E->getPredicate()) { case CmpInst::ICMP_EQ: out.push_back(imm(a == b)); return; case CmpInst::ICMP_NE: out.push_back(imm(a != b)); return; case CmpInst::ICMP_ULT: out.push_back(imm(a < b)); return; case CmpInst::ICMP_UGT: out.push_back(imm(a > b)); return; default: throw Unsup{"icmp constexpr"}; }
    }
    case Instruction::Select: out.push_back(imm(s(0) ? s(1) : s(2))); return;
    default: throw Unsup{std::string("constexpr ") + E->getOpcodeName()};
    }
  }
  std::string str; raw_string_ostream os(str); C->print(os);
  throw Unsup{"constant " + os.str()};
}
void initBytes(const Constant *C, std::vector<uint8_t> &b, uint64_t off) {
  Type *T = C->getType();
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto *S = dyn_cast<ConstantStruct>(C)) { const StructLayout *L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initBytes(S->getOperand(i), b, off + L->getElementOffset(i)); return; }
  if (auto *A = dyn_cast<ConstantArray>(C)) { uint64_t sz = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initBytes(A->getOperand(i), b, off + i * sz); return; }
  if (auto *A = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = A->getRawDataValues(); memcpy(b.data() + off, raw.data(), raw.size()); return;
  }
  if (auto *V = dyn_cast<ConstantVector>(C)) { uint64_t sz = DL->getTypeStoreSize(V->getType()->getElementType()); for (unsigned i = 0; i < V->getNumOperands(); i++) initBytes(V->getOperand(i), b, off + i * sz); return; }
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    APInt v = I->getValue(); unsigned n = (v.getBitWidth() + 7) / 8;
    for (unsigned i = 0; i < n; i++) b[off + i] = (uint8_t)v.extractBitsAsZExtValue(std::min(8u, v.getBitWidth() - 8 * i), 8 * i);
    return;
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    APInt v = F->getValueAPF().bitcastToAPInt(); unsigned n = (v.getBitWidth() + 7) / 8;
    for (unsigned i = 0; i < n; i++) b[off + i] = (uint8_t)v.extractBitsAsZExtValue(8, 8 * i);
    return;
  }
  uint64_t v = constScalar(C); unsigned n = DL->getTypeStoreSize(T);
  for (unsigned i = 0; i < n; i++) b[off + i] = (uint8_t)(v >> (8 * i));
}

struct FL {
  const llvm::Function &F; IFn &O;
  std::map<const Value *, uint32_t> slot;
  std::map<const BasicBlock *, int> bidx;
  uint32_t next = 0; Block *B = nullptr; uint32_t curLoc = 0;
  FL(const llvm::Function &f, IFn &o) : F(f), O(o) {}
  uint32_t newSlot(unsigned n = 1) { uint32_t r = next; next += n; return r; }
  void opnds(const Value *V, std::vector<Opnd> &out) {
    if (auto *C = dyn_cast<Constant>(V)) { constLanes(C, out); return; }
    unsigned n = nlanes(V->getType());
    uint32_t s = slot.at(V);
    for (unsigned i = 0; i < n; i++) out.push_back(regO(s + i));
  }
  Opnd op1(const Value *V) { std::vector<Opnd> o; opnds(V, o); if (o.size() != 1) throw Unsup{"expected scalar"}; return o[0]; }
  Inst &emit(Op op, uint32_t dst = 0, unsigned w = 0) { Inst i; memset(&i, 0, sizeof i); i.op = op; i.dst = dst; i.w = w; i.loc = curLoc; i.x = i.y = -1; B->insts.push_back(i); return B->insts.back(); }
  Opnd bin(Kind k, Opnd a, Opnd b, unsigned w) {
    if (a.imm && b.imm) { Val v = mkBin(k, Val(a.v), Val(b.v), w); return imm(v.c); }
    if (k == K_ADD && b.imm && b.v == 0) return a;
    uint32_t d = newSlot(); Inst &i = emit(O_BIN, d, w); i.kind = k; i.a = a; i.b = b; return regO(d);
  }
  Opnd gep(const GEPOperator *G) {
    if (G->getType()->isVectorTy()) throw Unsup{"vector gep"};
    Opnd base = op1(G->getPointerOperand());
    uint64_t coff = 0;
    for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
      Value *idx = it.getOperand();
      if (StructType *S = it.getStructTypeOrNull()) { coff += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
      uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      if (auto *CI = dyn_cast<ConstantInt>(idx)) { coff += (uint64_t)CI->getSExtValue() * sz; continue; }
      Opnd o = op1(idx); unsigned w = idx->getType()->getIntegerBitWidth();
      if (w < 64) { uint32_t d = newSlot(); Inst &i = emit(O_SEXT, d, 64); i.w2 = w; i.a = o; o = regO(d); }
      else if (w > 64) throw Unsup{"gep idx"};
      o = bin(K_MUL, o, imm(sz), 64);
      base = bin(K_ADD, base, o, 64);
    }
    return bin(K_ADD, base, imm(coff), 64);
  }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = bidx.at(to);
    for (const PHINode &P : to->phis()) {
      std::vector<Opnd> o; opnds(P.getIncomingValueForBlock(from), o);
      uint32_t s = slot.at(&P);
      for (unsigned i = 0; i < o.size(); i++) e.phis.push_back({s + i, o[i]});
    }
    O.edges.push_back(e);
    return O.edges.size() - 1;
  }
  void mov(uint32_t d, Opnd a, unsigned w) { Inst &i = emit(O_MOV, d, w); i.a = a; }
  void load(Type *T, Opnd addr, uint32_t dst, bool atomic) {
    std::vector<uint16_t> ws; lanes(T, ws); std::vector<uint64_t> offs; laneOffs(T, 0, offs);
    for (unsigned i = 0; i < ws.size(); i++) { Opnd a = bin(K_ADD, addr, imm(offs[i]), 64); Inst &x = emit(O_LOAD, dst + i, ws[i]); x.a = a; x.flag = atomic; }
  }
  void store(Type *T, const std::vector<Opnd> &v, Opnd addr, bool atomic) {
    std::vector<uint16_t> ws; lanes(T, ws); std::vector<uint64_t> offs; laneOffs(T, 0, offs);
    for (unsigned i = 0; i < ws.size(); i++) { Opnd a = bin(K_ADD, addr, imm(offs[i]), 64); Inst &x = emit(O_STORE, 0, ws[i]); x.a = a; x.b = v[i]; x.flag = atomic; }
  }
  static unsigned aggLane(Type *T, ArrayRef<unsigned> idx) {
    unsigned n = 0;
    for (unsigned k : idx) {
      if (auto *S = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < k; i++) n += nlanes(S->getElementType(i)); T = S->getElementType(k); }
      else { auto *A = cast<ArrayType>(T); n += k * nlanes(A->getElementType()); T = A->getElementType(); }
    }
    return n;
  }
  void unsup(const std::string &s) { O.unsup.push_back(s); Inst &i = emit(O_UNSUP); i.x = O.unsup.size() - 1; }
  unsigned lw(Type *T) { std::vector<uint16_t> ws; lanes(T, ws); return ws.at(0); }

  void call(const CallBase &C) {
    const Value *cv = C.getCalledOperand()->stripPointerCasts();
    uint32_t dst = C.getType()->isVoidTy() ? 0 : slot.at(&C);
    if (auto *IA = dyn_cast<InlineAsm>(cv)) {
      AsmInfo A; A.tmpl = std::string(IA->getAsmString()); A.cons = IA->getConstraintString(); A.dst = dst;
      for (unsigned i = 0; i < C.arg_size(); i++) {
        A.args.push_back(op1(C.getArgOperand(i))); A.argW.push_back(lw(C.getArgOperand(i)->getType()));
        Type *ET = C.getParamElementType(i); A.elemW.push_back(ET ? DL->getTypeStoreSizeInBits(ET) : 0);
      }
      if (!C.getType()->isVoidTy()) lanes(C.getType(), A.outW);
      O.asms.push_back(A); Inst &i = emit(O_ASM); i.x = O.asms.size() - 1; return;
    }
    const llvm::Function *cf = dyn_cast<llvm::Function>(cv);
    if (auto *ga = dyn_cast<GlobalAlias>(cv)) cf = dyn_cast<llvm::Function>(ga->getAliaseeObject());
    if (cf && cf->isIntrinsic()) { if (intrinsic(C, *cf, dst)) { if (auto *I = dyn_cast<InvokeInst>(&C)) { Inst &b = emit(O_BR); b.x = edge(C.getParent(), I->getNormalDest()); } return; } unsup("intrinsic " + cf->getName().str()); return; }
    CallInfo ci; ci.direct = cf != nullptr; ci.fnIdx = cf ? fIdx.at(cf) : -1; ci.callee = op1(cv); ci.name = cf ? cf->getName().str() : "";
    ci.dst = dst; ci.nret = nlanes(C.getType());
    for (unsigned i = 0; i < C.arg_size(); i++) {
      const Value *a = C.getArgOperand(i);
      if (a->getType()->isMetadataTy()) continue;
      if (C.isByValArgument(i)) {
        uint64_t sz = DL->getTypeAllocSize(C.getParamByValType(i));
        uint32_t d = newSlot(); Inst &x = emit(O_BYVAL, d, 64); x.a = op1(a); x.b = imm(sz);
        ci.args.push_back(regO(d)); ci.argW.push_back(64); continue;
      }
      lanes(a->getType(), ci.argW); opnds(a, ci.args);
    }
    ci.invoke = false; ci.normalEdge = ci.unwindEdge = -1;
    if (auto *I = dyn_cast<InvokeInst>(&C)) { ci.invoke = true; ci.normalEdge = edge(C.getParent(), I->getNormalDest()); ci.unwindEdge = edge(C.getParent(), I->getUnwindDest()); }
    O.calls.push_back(ci); Inst &i = emit(O_CALL); i.x = O.calls.size() - 1;
  }
  // lanewise helper
  void un(Op op, const CallBase &C, uint32_t dst, int kind = 0, int mode = 0) {
    std::vector<Opnd> o; opnds(C.getArgOperand(0), o); std::vector<uint16_t> ws; lanes(C.getType(), ws);
    for (unsigned i = 0; i < o.size(); i++) { Inst &x = emit(op, dst + i, ws[i]); x.kind = kind; x.a = o[i]; x.b = imm(mode); }
  }
  void bi(Op op, const CallBase &C, uint32_t dst, int kind = 0, int y = 0) {
    std::vector<Opnd> o, p; opnds(C.getArgOperand(0), o); opnds(C.getArgOperand(1), p); std::vector<uint16_t> ws; lanes(C.getArgOperand(0)->getType(), ws);
    for (unsigned i = 0; i < o.size(); i++) { Inst &x = emit(op, dst + i, ws[i]); x.kind = kind; x.a = o[i]; x.b = p[i]; x.y = y; }
  }
  bool intrinsic(const CallBase &C, const llvm::Function &cf, uint32_t dst) {
    switch (cf.getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: mov(dst, imm(0), 64); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy:
      mov(dst, op1(C.getArgOperand(0)), lw(C.getType())); return true;
    case Intrinsic::objectsize: mov(dst, imm(cast<ConstantInt>(C.getArgOperand(1))->isOne() ? 0 : maskw(lw(C.getType()))), lw(C.getType())); return true;
    case Intrinsic::is_constant: mov(dst, imm(0), 1); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: { Inst &i = emit(O_UNREACH); i.x = 1; return true; }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { Inst &i = emit(O_MEMCPY); i.a = op1(C.getArgOperand(0)); i.b = op1(C.getArgOperand(1)); i.c = op1(C.getArgOperand(2)); i.w = lw(C.getArgOperand(2)->getType()); i.flag = cf.getIntrinsicID() == Intrinsic::memmove; return true; }
    case Intrinsic::memset: { Inst &i = emit(O_MEMSET); i.a = op1(C.getArgOperand(0)); i.b = op1(C.getArgOperand(1)); i.c = op1(C.getArgOperand(2)); i.w = lw(C.getArgOperand(2)->getType()); return true; }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
      std::vector<Opnd> o, p; opnds(C.getArgOperand(0), o); opnds(C.getArgOperand(1), p); std::vector<uint16_t> ws; lanes(C.getType(), ws);
      auto id = cf.getIntrinsicID(); bool sg = id == Intrinsic::smax || id == Intrinsic::smin, mx = id == Intrinsic::umax || id == Intrinsic::smax;
      for (unsigned i = 0; i < o.size(); i++) {
        uint32_t c = newSlot(); Inst &x = emit(O_CMP, c, ws[i]); x.kind = sg ? K_SLT : K_ULT; x.a = mx ? p[i] : o[i]; x.b = mx ? o[i] : p[i];
        Inst &s = emit(O_SELECT, dst + i, ws[i]); s.a = regO(c); s.b = o[i]; s.c = p[i];
      }
      return true;
    }
    case Intrinsic::abs: {
      std::vector<Opnd> o; opnds(C.getArgOperand(0), o); std::vector<uint16_t> ws; lanes(C.getType(), ws);
      for (unsigned i = 0; i < o.size(); i++) {
        Opnd n = bin(K_SUB, imm(0), o[i], ws[i]); uint32_t c = newSlot(); Inst &x = emit(O_CMP, c, ws[i]); x.kind = K_SLT; x.a = o[i]; x.b = imm(0);
        Inst &s = emit(O_SELECT, dst + i, ws[i]); s.a = regO(c); s.b = n; s.c = o[i];
      }
      return true;
    }
    case Intrinsic::ctpop: un(O_CTPOP, C, dst); return true;
    case Intrinsic::ctlz: un(O_CTLZ, C, dst); return true;
    case Intrinsic::cttz: un(O_CTTZ, C, dst); return true;
    case Intrinsic::bswap: un(O_BSWAP, C, dst); return true;
    case Intrinsic::fabs: un(O_FABS, C, dst); return true;
    case Intrinsic::sqrt: un(O_FUN, C, dst, K_FSQRT); return true;
    case Intrinsic::floor: un(O_FUN, C, dst, K_FROUND, RM_FLOOR); return true;
    case Intrinsic::ceil: un(O_FUN, C, dst, K_FROUND, RM_CEIL); return true;
    case Intrinsic::trunc: un(O_FUN, C, dst, K_FROUND, RM_TRUNC); return true;
    case Intrinsic::round: un(O_FUN, C, dst, K_FROUND, RM_ROUND); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: un(O_FUN, C, dst, K_FROUND, RM_RINT); return true;
    case Intrinsic::copysign: bi(O_COPYSIGN, C, dst); return true;
    case Intrinsic::minnum: bi(O_FMINMAX, C, dst, 0); return true;
    case Intrinsic::maxnum: bi(O_FMINMAX, C, dst, 1); return true;
    case Intrinsic::fmuladd: case Intrinsic::fma: {
      std::vector<Opnd> o, p, q; opnds(C.getArgOperand(0), o); opnds(C.getArgOperand(1), p); opnds(C.getArgOperand(2), q); std::vector<uint16_t> ws; lanes(C.getType(), ws);
      for (unsigned i = 0; i < o.size(); i++) { Inst &x = emit(O_FMA, dst + i, ws[i]); x.a = o[i]; x.b = p[i]; x.c = q[i]; }
      return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      std::vector<Opnd> o, p, q; opnds(C.getArgOperand(0), o); opnds(C.getArgOperand(1), p); opnds(C.getArgOperand(2), q); std::vector<uint16_t> ws; lanes(C.getType(), ws);
      for (unsigned i = 0; i < o.size(); i++) { Inst &x = emit(cf.getIntrinsicID() == Intrinsic::fshl ? O_FSHL : O_FSHR, dst + i, ws[i]); x.a = o[i]; x.b = p[i]; x.c = q[i]; }
      return true;
    }
    case Intrinsic::uadd_with_overflow: bi(O_OVF, C, dst, 0); return true;
    case Intrinsic::sadd_with_overflow: bi(O_OVF, C, dst, 1); return true;
    case Intrinsic::usub_with_overflow: bi(O_OVF, C, dst, 2); return true;
    case Intrinsic::ssub_with_overflow: bi(O_OVF, C, dst, 3); return true;
    case Intrinsic::umul_with_overflow: bi(O_OVF, C, dst, 4); return true;
    case Intrinsic::smul_with_overflow: bi(O_OVF, C, dst, 5); return true;
    case Intrinsic::usub_sat: bi(O_SATSUB, C, dst); return true;
    case Intrinsic::uadd_sat: bi(O_SATADD, C, dst); return true;
    case Intrinsic::eh_typeid_for: mov(dst, imm(constScalar(cast<Constant>(C.getArgOperand(0)->stripPointerCasts())) >> 16 & 0x7fffffff), 32); return true;
    default: return false;
    }
  }
  void inst(const Instruction &I) {
    uint32_t dst = I.getType()->isVoidTy() ? 0 : slot.at(&I);
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      std::vector<Opnd> a, b; opnds(BO->getOperand(0), a); opnds(BO->getOperand(1), b); std::vector<uint16_t> ws; lanes(I.getType(), ws);
      Kind k; bool f = false;
      switch (BO->getOpcode()) {
      case Instruction::Add: k = K_ADD; break; case Instruction::Sub: k = K_SUB; break; case Instruction::Mul: k = K_MUL; break;
      case Instruction::UDiv: k = K_UDIV; break; case Instruction::SDiv: k = K_SDIV; break; case Instruction::URem: k = K_UREM; break; case Instruction::SRem: k = K_SREM; break;
      case Instruction::And: k = K_AND; break; case Instruction::Or: k = K_OR; break; case Instruction::Xor: k = K_XOR; break;
      case Instruction::Shl: k = K_SHL; break; case Instruction::LShr: k = K_LSHR; break; case Instruction::AShr: k = K_ASHR; break;
      case Instruction::FAdd: k = K_FADD; f = true; break; case Instruction::FSub: k = K_FSUB; f = true; break; case Instruction::FMul: k = K_FMUL; f = true; break; case Instruction::FDiv: k = K_FDIV; f = true; break; case Instruction::FRem: k = K_FREM; f = true; break;
      default: throw Unsup{std::string("binop ") + I.getOpcodeName()};
      }
      for (unsigned i = 0; i < a.size(); i++) { Inst &x = emit(f ? O_FBIN : O_BIN, dst + i, ws[i]); x.kind = k; x.a = a[i]; x.b = b[i]; }
      return;
    }
    switch (I.getOpcode()) {
    case Instruction::FNeg: { std::vector<Opnd> a; opnds(I.getOperand(0), a); std::vector<uint16_t> ws; lanes(I.getType(), ws); for (unsigned i = 0; i < a.size(); i++) { Inst &x = emit(O_FNEG, dst + i, ws[i]); x.a = a[i]; } return; }
    case Instruction::ICmp: {
      auto &C = cast<ICmpInst>(I); std::vector<Opnd> a, b; opnds(C.getOperand(0), a); opnds(C.getOperand(1), b); std::vector<uint16_t> ws; lanes(C.getOperand(0)->getType(), ws);
      for (unsigned i = 0; i < a.size(); i++) {
        Op op = O_CMP; Kind k = K_EQ; bool sw = false;
        switch (C.getPredicate()) {
        case CmpInst::ICMP_EQ: break; case CmpInst::ICMP_NE: op = O_NE; break;
        case CmpInst::ICMP_ULT: k = K_ULT; break; case CmpInst::ICMP_UGT: k = K_ULT; sw = true; break; case CmpInst::ICMP_ULE: op = O_ULE; break; case CmpInst::ICMP_UGE: op = O_ULE; sw = true; break;
        case CmpInst::ICMP_SLT: k = K_SLT; break; case CmpInst::ICMP_SGT: k = K_SLT; sw = true; break; case CmpInst::ICMP_SLE: op = O_SLE; break; case CmpInst::ICMP_SGE: op = O_SLE; sw = true; break;
        default: throw Unsup{"icmp"};
        }
        Inst &x = emit(op, dst + i, ws[i]); x.kind = k; x.a = sw ? b[i] : a[i]; x.b = sw ? a[i] : b[i];
      }
      return;
    }
    case Instruction::FCmp: {
      auto &C = cast<FCmpInst>(I); std::vector<Opnd> a, b; opnds(C.getOperand(0), a); opnds(C.getOperand(1), b); std::vector<uint16_t> ws; lanes(C.getOperand(0)->getType(), ws);
      for (unsigned i = 0; i < a.size(); i++) { Inst &x = emit(O_FCMP, dst + i, ws[i]); x.kind = C.getPredicate(); x.a = a[i]; x.b = b[i]; }
      return;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      std::vector<Opnd> a; opnds(I.getOperand(0), a); std::vector<uint16_t> ws, wf; lanes(I.getType(), ws); lanes(I.getOperand(0)->getType(), wf);
      for (unsigned i = 0; i < a.size(); i++) {
        Op op = I.getOpcode() == Instruction::SExt ? O_SEXT : ws[i] > wf[i] ? O_ZEXT : ws[i] < wf[i] ? O_TRUNC : O_MOV;
        Inst &x = emit(op, dst + i, ws[i]); x.w2 = wf[i]; x.a = a[i];
      }
      return;
    }
    case Instruction::BitCast: {
      std::vector<Opnd> a; opnds(I.getOperand(0), a); std::vector<uint16_t> ws, wf; lanes(I.getType(), ws); lanes(I.getOperand(0)->getType(), wf);
      if (ws == wf) { for (unsigned i = 0; i < a.size(); i++) mov(dst + i, a[i], ws[i]); return; }
      // general: via memory
      unsigned tot = 0; for (auto w : wf) tot += w;
      if (tot <= 64) { // pack then unpack
        Opnd acc = imm(0); unsigned sh = 0;
        for (unsigned i = 0; i < a.size(); i++) {
          Opnd z = a[i]; if (wf[i] < 64) { uint32_t d = newSlot(); Inst &x = emit(O_ZEXT, d, 64); x.w2 = wf[i]; x.a = z; z = regO(d); }
          z = bin(K_SHL, z, imm(sh), 64); acc = bin(K_OR, acc, z, 64); sh += wf[i];
        }
        sh = 0;
        for (unsigned i = 0; i < ws.size(); i++) { Opnd z = bin(K_LSHR, acc, imm(sh), 64); Inst &x = emit(ws[i] < 64 ? O_TRUNC : O_MOV, dst + i, ws[i]); x.w2 = 64; x.a = z; sh += ws[i]; }
        return;
      }
      throw Unsup{"bitcast"};
    }
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      std::vector<Opnd> a; opnds(I.getOperand(0), a); std::vector<uint16_t> ws, wf; lanes(I.getType(), ws); lanes(I.getOperand(0)->getType(), wf);
      Kind k = I.getOpcode() == Instruction::FPToSI ? K_FP2SI : I.getOpcode() == Instruction::FPToUI ? K_FP2UI : I.getOpcode() == Instruction::SIToFP ? K_SI2FP : I.getOpcode() == Instruction::UIToFP ? K_UI2FP : K_FPCVT;
      for (unsigned i = 0; i < a.size(); i++) { Inst &x = emit(O_FCVT, dst + i, ws[i]); x.kind = k; x.w2 = wf[i]; x.a = a[i]; }
      return;
    }
    case Instruction::Select: {
      std::vector<Opnd> c, a, b; opnds(I.getOperand(0), c); opnds(I.getOperand(1), a); opnds(I.getOperand(2), b); std::vector<uint16_t> ws; lanes(I.getType(), ws);
      for (unsigned i = 0; i < a.size(); i++) { Inst &x = emit(O_SELECT, dst + i, ws[i]); x.a = c.size() == 1 ? c[0] : c[i]; x.b = a[i]; x.c = b[i]; }
      return;
    }
    case Instruction::Freeze: { std::vector<Opnd> a; opnds(I.getOperand(0), a); std::vector<uint16_t> ws; lanes(I.getType(), ws); for (unsigned i = 0; i < a.size(); i++) mov(dst + i, a[i], ws[i]); return; }
    case Instruction::Alloca: {
      auto &A = cast<AllocaInst>(I); uint64_t sz = DL->getTypeAllocSize(A.getAllocatedType());
      Opnd n = op1(A.getArraySize()); unsigned w = A.getArraySize()->getType()->getIntegerBitWidth();
      if (w < 64 && !n.imm) { uint32_t d = newSlot(); Inst &x = emit(O_ZEXT, d, 64); x.w2 = w; x.a = n; n = regO(d); }
      Opnd tot = bin(K_MUL, n, imm(sz), 64);
      Inst &x = emit(O_ALLOCA, dst, 64); x.a = tot; return;
    }
    case Instruction::Load: { auto &L = cast<LoadInst>(I); load(I.getType(), op1(L.getPointerOperand()), dst, L.isAtomic() || L.isVolatile()); return; }
    case Instruction::Store: { auto &S = cast<StoreInst>(I); std::vector<Opnd> v; opnds(S.getValueOperand(), v); store(S.getValueOperand()->getType(), v, op1(S.getPointerOperand()), S.isAtomic() || S.isVolatile()); return; }
    case Instruction::GetElementPtr: { Opnd o = gep(cast<GEPOperator>(&I)); mov(dst, o, 64); return; }
    case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); std::vector<Opnd> a; opnds(E.getAggregateOperand(), a); unsigned l = aggLane(E.getAggregateOperand()->getType(), E.getIndices()); std::vector<uint16_t> ws; lanes(I.getType(), ws); for (unsigned i = 0; i < ws.size(); i++) mov(dst + i, a[l + i], ws[i]); return; }
    case Instruction::InsertValue: {
      auto &E = cast<InsertValueInst>(I); std::vector<Opnd> a, v; opnds(E.getAggregateOperand(), a); opnds(E.getInsertedValueOperand(), v); unsigned l = aggLane(I.getType(), E.getIndices());
      for (unsigned i = 0; i < v.size(); i++) a[l + i] = v[i];
      std::vector<uint16_t> ws; lanes(I.getType(), ws); for (unsigned i = 0; i < a.size(); i++) mov(dst + i, a[i], ws[i]); return;
    }
    case Instruction::ExtractElement: { std::vector<Opnd> a; opnds(I.getOperand(0), a); auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) throw Unsup{"extractelement var"}; mov(dst, a.at(ci->getZExtValue()), lw(I.getType())); return; }
    case Instruction::InsertElement: { std::vector<Opnd> a; opnds(I.getOperand(0), a); auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) throw Unsup{"insertelement var"}; a.at(ci->getZExtValue()) = op1(I.getOperand(1)); unsigned w = lw(I.getType()); for (unsigned i = 0; i < a.size(); i++) mov(dst + i, a[i], w); return; }
    case Instruction::ShuffleVector: {
      auto &S = cast<ShuffleVectorInst>(I); std::vector<Opnd> a, b; opnds(I.getOperand(0), a); opnds(I.getOperand(1), b); unsigned w = lw(I.getType());
      auto m = S.getShuffleMask(); for (unsigned i = 0; i < m.size(); i++) { Opnd o = m[i] < 0 ? undefO() : (unsigned)m[i] < a.size() ? a[m[i]] : b[m[i] - a.size()]; mov(dst + i, o, w); }
      return;
    }
    case Instruction::PHI: return;
    case Instruction::Br: {
      auto &Br = cast<BranchInst>(I);
      if (Br.isUnconditional()) { int e = edge(I.getParent(), Br.getSuccessor(0)); emit(O_BR).x = e; }
      else { int e0 = edge(I.getParent(), Br.getSuccessor(0)), e1 = edge(I.getParent(), Br.getSuccessor(1)); Opnd c = op1(Br.getCondition()); Inst &x = emit(O_CBR); x.a = c; x.x = e0; x.y = e1; }
      return;
    }
    case Instruction::Switch: {
      auto &S = cast<SwitchInst>(I); SwitchInfo si; for (auto &c : S.cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())});
      si.def = edge(I.getParent(), S.getDefaultDest()); O.switches.push_back(si);
      Opnd c = op1(S.getCondition()); Inst &x = emit(O_SWITCH, 0, lw(S.getCondition()->getType())); x.a = c; x.x = O.switches.size() - 1; return;
    }
    case Instruction::Ret: {
      auto &R = cast<ReturnInst>(I); if (!R.getReturnValue()) { emit(O_RET).x = 0; return; }
      std::vector<Opnd> o; opnds(R.getReturnValue(), o); std::vector<uint16_t> ws; lanes(R.getReturnValue()->getType(), ws);
      uint32_t s = newSlot(o.size()); for (unsigned i = 0; i < o.size(); i++) mov(s + i, o[i], ws[i]);
      Inst &x = emit(O_RET); x.x = o.size(); x.a = regO(s); return;
    }
    case Instruction::Unreachable: emit(O_UNREACH).x = 0; return;
    case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
    case Instruction::LandingPad: {
      auto &L = cast<LandingPadInst>(I); LpadInfo li; li.cleanup = L.isCleanup(); li.hasFilter = false;
      for (unsigned i = 0; i < L.getNumClauses(); i++) { if (L.isCatch(i)) li.catches.push_back(constScalar(L.getClause(i))); else { li.hasFilter = true; } }
      O.lpads.push_back(li); Inst &x = emit(O_LPAD, dst, 64); x.x = O.lpads.size() - 1; return;
    }
    case Instruction::Resume: { std::vector<Opnd> o; opnds(I.getOperand(0), o); Inst &x = emit(O_RESUME); x.a = o[0]; return; }
    case Instruction::Fence: emit(O_FENCE); return;
    case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); Inst &x = emit(O_ATOMICRMW, dst, lw(I.getType())); x.kind = A.getOperation(); x.a = op1(A.getPointerOperand()); x.b = op1(A.getValOperand()); return; }
    case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); Inst &x = emit(O_CMPXCHG, dst, lw(A.getNewValOperand()->getType())); x.a = op1(A.getPointerOperand()); x.b = op1(A.getCompareOperand()); x.c = op1(A.getNewValOperand()); return; }
    default: throw Unsup{std::string("opcode ") + I.getOpcodeName()};
    }
  }
  void run() {
    for (const Argument &A : F.args()) { std::vector<uint16_t> ws; lanes(A.getType(), ws); uint32_t s = newSlot(ws.size()); slot[&A] = s; for (unsigned i = 0; i < ws.size(); i++) { O.argSlots.push_back(s + i); O.argW.push_back(ws[i]); } }
    lanes(F.getReturnType(), O.retW);
    int bi = 0;
    std::vector<const Instruction *> bad;
    for (const BasicBlock &BB : F) {
      bidx[&BB] = bi++;
      for (const Instruction &I : BB) if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) {
        unsigned n = 1; try { n = nlanes(I.getType()); } catch (Unsup &) { n = 1; }
        slot[&I] = newSlot(n ? n : 1);
      }
    }
    O.blocks.resize(bi);
    bi = 0;
    for (const BasicBlock &BB : F) {
      B = &O.blocks[bi++];
      for (const Instruction &I : BB) {
        if (const DILocation *L = I.getDebugLoc().get()) {
          std::string f = L->getFilename().str(); if (!f.empty() && f[0] != '/') f = L->getDirectory().str() + "/" + f;
          auto key = std::make_pair(f, (uint32_t)L->getLine());
          auto it = locIdx.find(key); if (it == locIdx.end()) { it = locIdx.emplace(key, M->locs.size()).first; M->locs.push_back(key); }
          curLoc = it->second;
        }
        try { inst(I); } catch (Unsup &u) { unsup(u.why); } catch (std::out_of_range &) { unsup("slot lookup"); }
      }
    }
    O.nslots = next;
  }
};
} // namespace

IMod *lowerModule(const std::vector<std::string> &files, std::string &err) {
  static LLVMContext ctx;
  SMDiagnostic d;
  std::unique_ptr<llvm::Module> mod;
  for (auto &f : files) {
    auto m = parseIRFile(f, d, ctx);
    if (!m) { raw_string_ostream os(err); d.print("symx", os); return nullptr; }
    if (!mod) mod = std::move(m);
    else if (Linker::linkModules(*mod, std::move(m))) { err = "link failure: " + f; return nullptr; }
  }
  llvm::Module *LM = mod.release();
  DL = &LM->getDataLayout();
  M = new IMod;
  M->locs.push_back({"", 0});
  for (llvm::Function &F : *LM) {
    IFn *o = new IFn; o->idx = M->fns.size(); o->name = F.getName().str(); o->defined = !F.isDeclaration(); o->addr = FN_BASE + 16ULL * o->idx; o->vararg = F.isVarArg();
    fIdx[&F] = o->idx; M->fns.push_back(o); M->fnByName[o->name] = o->idx; M->fnByAddr[o->addr] = o->idx;
    if (DISubprogram *sp = F.getSubprogram()) { o->file = sp->getFilename().str(); if (!o->file.empty() && o->file[0] != '/') o->file = sp->getDirectory().str() + "/" + o->file; o->line = sp->getLine(); }
    o->pretty = o->defined ? llvm::demangle(o->name) : o->name;
  }
  for (GlobalVariable &G : LM->globals()) {
    int i = M->globals.size(); gvIdx[&G] = i;
    GlobalInit g; g.name = G.getName().str(); g.addr = ((uint64_t)(i + 1) << 32) + OBJ_OFF; g.constant = G.isConstant(); g.external = G.isDeclaration(); g.tls = G.isThreadLocal();
    g.size = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 0; if (g.external && g.size < 512) g.size = 512;
    M->globals.push_back(g); M->globByName[g.name] = i;
  }
  for (GlobalVariable &G : LM->globals()) {
    GlobalInit &g = M->globals[gvIdx[&G]]; g.bytes.assign(g.size, 0);
    if (G.hasInitializer() && G.getName() != "llvm.global_ctors" && G.getName() != "llvm.global_dtors" && G.getName() != "llvm.used" && G.getName() != "llvm.compiler.used") {
      try { initBytes(G.getInitializer(), g.bytes, 0); } catch (Unsup &u) { err += "global " + g.name + ": " + u.why + "\n"; }
    }
  }
  if (GlobalVariable *G = LM->getNamedGlobal("llvm.global_ctors")) {
    std::vector<std::pair<uint64_t, uint64_t>> cs;
    if (auto *A = dyn_cast<ConstantArray>(G->getInitializer()))
      for (unsigned i = 0; i < A->getNumOperands(); i++) { auto *S = cast<ConstantStruct>(A->getOperand(i)); cs.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), constScalar(S->getOperand(1))}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : cs) M->ctors.push_back(c.second);
  }
  for (llvm::Function &F : *LM) if (!F.isDeclaration()) {
    IFn *o = M->fns[fIdx[&F]];
    try { FL fl(F, *o); fl.run(); }
    catch (Unsup &u) { o->blocks.clear(); o->blocks.resize(1); o->unsup.assign(1, u.why); Inst i; memset(&i, 0, sizeof i); i.op = O_UNSUP; i.x = 0; o->blocks[0].insts.push_back(i); }
  }
  return M;
}
