// Symbolic execution of the internal IR
#pragma once
#include "ir.hpp"
#include "expr.hpp"
#include "solver.hpp"
#include <atomic>
#include <memory>
#include <map>
#include <set>
#include <string>
#include <vector>

enum ObjKind : uint8_t { OK_GLOBAL, OK_HEAP, OK_STACK, OK_EXC };
enum { HK_MALLOC = 0, HK_NEW = 1, HK_NEWARR = 2 };
struct Obj {
  uint32_t ref; uint8_t kind, hk; bool freed, ro;
  uint64_t size; uint8_t *d; uint8_t *f; Node **s; uint32_t loc; // f: 0 concrete, 1 uninitialised, 2 symbolic; null = all concrete
};
struct Chunk { uint32_t ref; Obj *o[64]; };
struct Mem {
  std::vector<Chunk *> ch;
  Mem() {}
  Mem(const Mem &m) : ch(m.ch) { for (Chunk *c : ch) if (c) c->ref++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem();
  Obj *get(uint64_t id) const { uint64_t k = id >> 6; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id & 63]; }
  Obj *wr(uint64_t id);
  void put(uint64_t id, Obj *o);
};
struct Frame {
  Function *fn; int block, ip; std::vector<Val> r; std::vector<uint32_t> allocas; uint32_t dst; bool noAdvance; int nret; uint64_t freeExc;
};
struct AsmSt { int pc = -1; std::vector<Val> regs; Val zf, sf, cf, of, tmp; bool phase = false; };
struct Exc { uint64_t obj, ti; };
struct Thread {
  std::vector<Frame> fr; bool done = false; bool blocked = false; uint64_t bAddr = 0; uint64_t bVal = 0; unsigned bW = 32; bool spin = false; uint64_t spinWr = 0; int joinTid = -1; bool atomic = false;
  Exc cur{0, 0}; std::vector<Exc> caught; AsmSt as;
};
struct InRec { Val v; uint8_t w; uint8_t kind; const char *name; }; // kind 0 value, 1 choice
struct State {
  Mem mem; std::vector<Thread> th; int cur = 0; bool skipYield = false; int preempts = 0;
  std::vector<Node *> pc; std::vector<uint64_t> model; uint32_t nvars = 0;
  std::vector<InRec> in; std::vector<std::pair<Val, uint8_t>> tr;
  uint64_t nextObj; uint64_t steps = 0; uint64_t wr = 0; int64_t live = 0; int allowAbort = 0; uint64_t uninit = 0; std::vector<uint32_t> uninitVars; int depthForks = 0;
  std::vector<int> sched; std::map<uint64_t, uint64_t> exctypes; bool retryFlag = false; int allocFail = -1; uint64_t allocN = 0; int asmPc = -1; uint64_t brk = 0;
  std::map<std::string, uint64_t> kv; std::vector<uint64_t> watch; std::vector<std::pair<uint64_t,std::pair<Val,Val>>> uf;
  State() {}
  State(const State &) = default;
};
struct Shared {
  std::atomic<int> active, stop, viol, samples, procs; std::atomic<uint64_t> paths, insts, queries, z3calls, cacheHits, modelHits, unknowns, bbcalls, forks, z3us, maxqus, states, symbr, aborts, killed, nodes, assumesKilled, asserts;
  std::atomic<uint64_t> violHash[64]; std::atomic<int> nHash; std::atomic<int> incon; char inconMsg[32][200]; std::atomic<uint64_t> firstViolMs; std::atomic<int> crash;
  std::atomic<int> nreach; char reach[512][96];
};
extern Module *g_mod; extern Shared *g_sh;
struct Options {
  std::string entry = "symx_main", outdir = "."; int procs = 8; uint64_t maxSteps = 20000000; uint64_t maxPaths = 0; double maxTime = 600; int maxViol = 6; int nsamples = 24;
  int preempt = 1000; bool allMem = false; bool skipCtors = false; std::map<std::string, long> params; int verbose = 0; uint64_t muxLimit = 4200; uint64_t memLimitMB = 0; std::set<std::string> skipCtorFns; bool leak=false; unsigned seed = 1;
};
extern Options g_opt;
int symxRun();
