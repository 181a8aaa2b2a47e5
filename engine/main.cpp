#include "exec.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
int main(int argc, char **argv) {
  std::vector<std::string> files; 
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") g_opt.entry = nx(); else if (a == "--out") g_opt.outdir = nx(); else if (a == "--procs") g_opt.procs = atoi(nx().c_str());
    else if (a == "--max-steps") g_opt.maxSteps = atoll(nx().c_str()); else if (a == "--max-time") g_opt.maxTime = atof(nx().c_str()); else if (a == "--max-viol") g_opt.maxViol = atoi(nx().c_str());
    else if (a == "--samples") g_opt.nsamples = atoi(nx().c_str()); else if (a == "--preempt") g_opt.preempt = atoi(nx().c_str()); else if (a == "--all-mem") g_opt.allMem = true; else if (a == "--skip-ctors") g_opt.skipCtors = true;
    else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); g_opt.params[p.substr(0, e)] = atol(p.c_str() + e + 1); }
    else if (a == "--timeout-ms") g_timeoutMs = atoi(nx().c_str()); else if (a == "--dump") g_dumpDir = nx(); else if (a == "-v") g_opt.verbose = 1; else if (a == "--mux") g_opt.muxLimit = atoll(nx().c_str()); else if (a == "--seed") g_opt.seed = atoi(nx().c_str());
    else if (a == "--max-paths") g_opt.maxPaths = atoll(nx().c_str());
    else files.push_back(a);
  }
  std::string err; g_mod = lowerModule(files, err);
  if (!g_mod) { fprintf(stderr, "symx: %s\n", err.c_str()); return 3; }
  if (!err.empty() && g_opt.verbose) fprintf(stderr, "symx: note: %s", err.c_str());
  return symxRun();
}
