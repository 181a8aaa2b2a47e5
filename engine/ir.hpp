// Compact internal IR, produced from LLVM bitcode by lower.cpp
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>

struct Opnd { bool imm; uint8_t undef; uint64_t v; };

enum Op : uint8_t {
  O_BIN, O_CMP, O_NE, O_ULE, O_SLE, O_FCMP, O_FBIN, O_FUN, O_FCVT, O_FNEG, O_FABS, O_COPYSIGN, O_FMINMAX, O_FMA,
  O_ZEXT, O_SEXT, O_TRUNC, O_SELECT, O_MOV, O_LOAD, O_STORE, O_ALLOCA,
  O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_LPAD, O_RESUME, O_UNREACH,
  O_ASM, O_ATOMICRMW, O_CMPXCHG, O_FENCE, O_OVF, O_CTPOP, O_CTLZ, O_CTTZ, O_BSWAP, O_FSHL, O_FSHR, O_SATSUB, O_SATADD,
  O_MEMCPY, O_MEMSET, O_BYVAL, O_UNSUP
};

struct Edge { int target; std::vector<std::pair<uint32_t, Opnd>> phis; };
struct CallInfo {
  Opnd callee; bool direct; int fnIdx; // fnIdx valid when direct
  std::vector<Opnd> args;               // flattened
  std::vector<uint16_t> argW;
  int nret; uint32_t dst;
  bool invoke; int normalEdge, unwindEdge;
  std::string name;
};
struct LpadInfo { bool cleanup; std::vector<uint64_t> catches; /*typeinfo addresses, 0 = catch all*/ bool hasFilter; };
struct AsmInfo { std::string tmpl, cons; std::vector<Opnd> args; std::vector<uint16_t> argW, outW; std::vector<uint16_t> elemW; uint32_t dst; };
struct SwitchInfo { std::vector<std::pair<uint64_t, int>> cases; int def; };

struct Inst {
  Op op; uint8_t kind; uint8_t w; uint8_t w2; uint8_t flag;
  uint32_t dst; uint32_t loc;
  Opnd a, b, c; int x; int y;
};
struct Block { std::vector<Inst> insts; };
struct Function {
  std::string name; bool defined = false; uint64_t addr = 0;
  uint32_t nslots = 0; std::vector<uint32_t> argSlots; std::vector<uint16_t> argW; std::vector<uint16_t> retW;
  std::vector<Block> blocks; std::vector<Edge> edges;
  std::vector<CallInfo> calls; std::vector<LpadInfo> lpads; std::vector<AsmInfo> asms; std::vector<SwitchInfo> switches;
  std::vector<std::string> unsup;
  bool fromRepo = false; std::string file; std::string pretty;
  int idx = -1; int builtin = -1; bool vararg = false; uint32_t line = 0;
};
struct GlobalInit { std::string name; uint64_t addr, size; bool constant; bool external; std::vector<uint8_t> bytes; bool tls; };
struct Module {
  std::vector<Function *> fns;
  std::unordered_map<std::string, int> fnByName;
  std::unordered_map<uint64_t, int> fnByAddr;
  std::vector<GlobalInit> globals;
  std::unordered_map<std::string, int> globByName;
  std::vector<uint64_t> ctors; // function addresses in order
  std::vector<std::pair<std::string, uint32_t>> locs; // file, line
};
// addresses: function i at FN_BASE + 16*i ; global i in region (1+i) << 32
static const uint64_t FN_BASE = 0x10000;
static const uint64_t OBJ_OFF = 0x10000;
Module *lowerModule(const std::vector<std::string> &files, std::string &err);
