// A small x86 interpreter for the GNU inline assembly that the atomics and spin locks use.
// Memory-accessing instructions are scheduling points; a read-modify-write without a lock prefix is split in two.
struct AOp { int kind; /*0 operand,1 imm,2 ax*/ int idx; uint64_t v; unsigned w; };
struct AIns { std::string m; bool lock; std::vector<AOp> ops; int target; unsigned w; };
struct AProg { bool ok; std::string err; std::vector<AIns> ins; struct OpI { bool mem; int reg; int arg; unsigned w; int out; }; std::vector<OpI> op; int nreg; std::vector<std::pair<int,int>> init; std::vector<std::pair<int,unsigned>> outs; int axreg; std::vector<uint16_t> regw; };
static std::map<const AsmInfo *, AProg> asmCache;
static AProg parseAsm(const AsmInfo &A) {
  AProg P; P.ok = true; P.nreg = 0; P.axreg = -1;
  auto fail = [&](const std::string &e) { P.ok = false; P.err = e; };
  // constraints
  std::vector<std::string> cs; { std::string cur; int br = 0; for (char c : A.cons) { if (c == '{') br++; if (c == '}') br--; if (c == ',' && !br) { cs.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty()) cs.push_back(cur); }
  int arg = 0, out = 0;
  for (auto c : cs) {
    if (c.empty() || c[0] == '~') continue;
    AProg::OpI o; o.mem = false; o.reg = -1; o.arg = -1; o.w = 0; o.out = -1;
    bool isOut = c[0] == '='; std::string b = isOut ? c.substr(1) : c; if (!b.empty() && b[0] == '&') b = b.substr(1); bool ind = !b.empty() && b[0] == '*'; if (ind) b = b.substr(1);
    if (ind) { o.mem = true; o.arg = arg; o.w = A.elemW.at(arg); arg++; }
    else if (isOut) { o.reg = P.nreg++; o.w = A.outW.at(out); P.regw.push_back(o.w); P.outs.push_back({o.reg, o.w}); out++; if (b.find("{ax}") != std::string::npos || b.find("{eax}") != std::string::npos || b == "a") P.axreg = o.reg; }
    else if (!b.empty() && isdigit(b[0])) { auto &t = P.op.at(atoi(b.c_str())); o = t; if (t.mem) fail("tied memory"); P.init.push_back({t.reg, arg}); arg++; }
    else { o.reg = P.nreg++; o.w = A.argW.at(arg); P.regw.push_back(o.w); P.init.push_back({o.reg, arg}); arg++; if (b.find("{ax}") != std::string::npos || b == "a") P.axreg = o.reg; }
    P.op.push_back(o);
  }
  // template
  std::string t; // dialect alternatives and $ escapes
  const std::string &s = A.tmpl; std::vector<std::string> lines; std::string cur;
  for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (c == '\n' || c == ';') { lines.push_back(cur); cur.clear(); } else if (c == '#') { while (i < s.size() && s[i] != '\n') i++; lines.push_back(cur); cur.clear(); } else cur += c; }
  lines.push_back(cur);
  std::vector<AIns> main, sub; std::map<int, std::vector<std::pair<int, int>>> labs; // label -> (section,pos)
  std::vector<std::vector<std::pair<int, int>>> dummy; int sec = 0; bool lock = false;
  struct Pend { int sec, pos, lab; char dir; }; std::vector<Pend> pend;
  auto trim = [](std::string x) { size_t a = x.find_first_not_of(" \t\r"); if (a == std::string::npos) return std::string(); size_t b = x.find_last_not_of(" \t\r"); return x.substr(a, b - a + 1); };
  for (auto ln : lines) {
    ln = trim(ln);
    while (!ln.empty()) { size_t k = 0; while (k < ln.size() && isdigit(ln[k])) k++; if (k && k < ln.size() && ln[k] == ':') { labs[atoi(ln.c_str())].push_back({sec, (int)(sec ? sub : main).size()}); ln = trim(ln.substr(k + 1)); } else break; }
    if (ln.empty()) continue;
    if (ln[0] == '.') { if (ln.compare(0, 11, ".subsection") == 0) sec = 1; else if (ln.compare(0, 9, ".previous") == 0) sec = 0; continue; }
    while (ln.compare(0, 4, "lock") == 0 && (ln.size() == 4 || isspace(ln[4]))) { lock = true; ln = trim(ln.substr(4)); }
    if (ln.empty()) continue;
    AIns I; I.lock = lock; lock = false; I.target = -1; I.w = 0;
    size_t sp = ln.find_first_of(" \t"); I.m = ln.substr(0, sp); std::string rest = sp == std::string::npos ? "" : trim(ln.substr(sp));
    if (I.m == "rep" || I.m == "nop") { if (I.m == "rep") I.m = "pause"; else { continue; } I.ops.clear(); (sec ? sub : main).push_back(I); continue; }
    if (I.m[0] == 'j') { int lab = atoi(rest.c_str()); if (rest.empty() || (rest.back() != 'f' && rest.back() != 'b')) { fail("jump target " + rest); break; } pend.push_back({sec, (int)(sec ? sub : main).size(), lab, rest.back()}); (sec ? sub : main).push_back(I); continue; }
    // operands
    std::vector<std::string> os; { std::string c2; int d = 0; for (char c : rest) { if (c == '(' || c == '{') d++; if (c == ')' || c == '}') d--; if (c == ',' && !d) { os.push_back(trim(c2)); c2.clear(); } else c2 += c; } if (!trim(c2).empty()) os.push_back(trim(c2)); }
    for (auto &o : os) {
      AOp a; a.w = 0; a.v = 0; a.idx = -1;
      if (o.compare(0, 2, "$$") == 0) { a.kind = 1; a.v = strtoll(o.c_str() + 2, nullptr, 0); }
      else if (o[0] == '$') { std::string z = o.substr(1); if (!z.empty() && z[0] == '{') { size_t co = z.find(':'); char mod = co != std::string::npos ? z[co + 1] : 0; if (mod == 'b') a.w = 8; else if (mod == 'w') a.w = 16; else if (mod == 'k') a.w = 32; else if (mod == 'q') a.w = 64; z = z.substr(1); } a.kind = 0; a.idx = atoi(z.c_str()); if (a.idx >= (int)P.op.size()) { fail("operand " + o); break; } }
      else if (o == "%eax" || o == "%rax" || o == "%ax" || o == "%al") { a.kind = 2; a.w = o == "%eax" ? 32 : o == "%rax" ? 64 : o == "%ax" ? 16 : 8; }
      else { fail("operand " + o); break; }
      I.ops.push_back(a);
    }
    (sec ? sub : main).push_back(I);
  }
  AIns jend; jend.m = "end"; jend.lock = false; jend.target = -1; jend.w = 0; main.push_back(jend); int base = main.size();
  for (auto &p : pend) {
    int at = p.sec * 1000000 + p.pos; int best = -1; int bestd = 1 << 30;
    (void)at;
    // textual order equals section-position order only within a section; across sections use either label
    auto &v = labs[p.lab];
    for (auto &l : v) { int d; if (l.first == p.sec) { d = l.second - p.pos; if (p.dir == 'f' ? d <= 0 : d > 0) continue; d = abs(d); } else d = 100000; if (d < bestd) { bestd = d; best = l.first ? base + l.second : l.second; } }
    if (best < 0) { fail("label"); break; }
    (p.sec ? sub : main)[p.pos].target = best;
  }
  P.ins = main; for (auto &i : sub) P.ins.push_back(i); P.ins.push_back(jend);
  return P;
}
static Val setW(Val v, unsigned from, unsigned to) { return from == to ? v : from > to ? mkExtract(v, from, 0, to) : mkZext(v, from, to); }
static void execAsm(const Inst &I) {
  Frame &f = F(); AsmInfo &A = f.fn->asms[I.x]; AsmSt &st = T().as;
  auto it = asmCache.find(&A); if (it == asmCache.end()) it = asmCache.emplace(&A, parseAsm(A)).first;
  AProg &P = it->second;
  if (!P.ok) { unmodelled("inline asm: " + P.err + " in \"" + A.tmpl + "\""); return; }
  auto argv = [&](int k) { const Opnd &o = A.args[k]; return o.imm ? Val(o.v) : f.r[o.v]; };
  if (st.pc < 0) { st.pc = 0; st.phase = false; st.regs.assign(P.nreg, Val(0)); st.zf = st.sf = st.cf = st.of = Val(0); for (auto &p : P.init) st.regs[p.first] = argv(p.second); }
  int guard = 0;
  while (true) {
    if (st.pc >= (int)P.ins.size() || P.ins[st.pc].m == "end") { // done
      for (size_t k = 0; k < P.outs.size(); k++) f.r[A.dst + k] = st.regs[P.outs[k].first];
      st.pc = -1; f.ip++; return;
    }
    if (++guard > 3000) return; // come back later
    AIns &in = P.ins[st.pc]; std::string m = in.m;
    if (m[0] == 'j') {
      Val c; if (m == "jmp") c = Val(1); else if (m == "je" || m == "jz") c = st.zf; else if (m == "jne" || m == "jnz") c = bNot(st.zf);
      else if (m == "js") c = st.sf; else if (m == "jns") c = bNot(st.sf); else if (m == "jc" || m == "jb") c = st.cf; else if (m == "jnc" || m == "jae") c = bNot(st.cf);
      else if (m == "jl") c = mkBin(K_XOR, st.sf, st.of, 1); else if (m == "jge") c = bNot(mkBin(K_XOR, st.sf, st.of, 1)); else if (m == "jg") c = bAnd(bNot(st.zf), bNot(mkBin(K_XOR, st.sf, st.of, 1))); else if (m == "jle") c = bOr(st.zf, mkBin(K_XOR, st.sf, st.of, 1));
      else if (m == "ja") c = bAnd(bNot(st.cf), bNot(st.zf)); else if (m == "jbe") c = bOr(st.cf, st.zf); else { unmodelled("inline asm: " + m); return; }
      int d = c.isC() ? (c.c & 1) : decide(c); if (dead) return; T().as.pc = d ? in.target : st.pc + 1; continue;
    }
    if (m == "mfence" || m == "lfence" || m == "sfence") { st.pc++; continue; }
    if (m == "pause") { // spinning hint: wait until someone else writes
      st.pc++; if (S->th.size() > 1) { T().spin = true; T().spinWr = S->wr; mustSwitch(); return; } if (S->steps > 200000) { violationKill("livelock", "spins forever with no other thread"); return; } S->steps += 5000; continue;
    }
    // width
    unsigned w = 0; for (auto &o : in.ops) if (o.kind == 2) w = o.w;
    static const std::map<char, unsigned> suf = {{'b', 8}, {'w', 16}, {'l', 32}, {'q', 64}};
    static const std::set<std::string> base = {"mov", "xchg", "xadd", "cmpxchg", "inc", "dec", "add", "sub", "and", "or", "xor", "neg", "not", "cmp", "test"};
    if (!base.count(m) && m.compare(0, 3, "set") != 0) { auto sx = suf.find(m.back()); if (sx != suf.end() && base.count(m.substr(0, m.size() - 1))) { w = sx->second; m = m.substr(0, m.size() - 1); } }
    if (m.compare(0, 3, "set") == 0) w = 8;
    if (!w) for (auto &o : in.ops) { if (o.w) w = o.w; else if (o.kind == 0 && !w) w = P.op[o.idx].w; else if (o.kind == 0 && P.op[o.idx].mem && P.op[o.idx].w) w = P.op[o.idx].w; }
    if (!w) { unmodelled("inline asm width: " + A.tmpl); return; }
    int memop = -1; for (size_t k = 0; k < in.ops.size(); k++) if (in.ops[k].kind == 0 && P.op[in.ops[k].idx].mem) memop = k;
    bool locked = in.lock || (m == "xchg" && memop >= 0);
    bool setcc = m.compare(0, 3, "set") == 0;
    bool readsDst = !(m == "mov" || setcc), writesDst = !(m == "cmp" || m == "test");
    bool rmw = memop >= 0 && readsDst && writesDst && (memop == (int)in.ops.size() - 1 || m == "xchg");
    if (st.phase) S->skipYield = false;
    if (memop >= 0 && !st.phase) { bool sk = S->skipYield; yieldPoint(); (void)sk; }
    auto get = [&](const AOp &o, Val &out) -> bool {
      if (o.kind == 1) { out = Val(o.v & maskw(w)); return true; }
      if (o.kind == 2) { if (P.axreg < 0) { unmodelled("inline asm ax"); return false; } out = setW(st.regs[P.axreg], P.regw[P.axreg], w); return true; }
      auto &p = P.op[o.idx]; if (p.mem) return load(argv(p.arg), w, out); out = setW(st.regs[p.reg], p.w, w); return true; };
    auto put = [&](const AOp &o, Val v) -> bool {
      if (o.kind == 2) { unsigned rw = P.regw[P.axreg]; st.regs[P.axreg] = w >= rw ? setW(v, w, rw) : w == 32 ? mkZext(v, 32, rw) : mkConcat(mkExtract(st.regs[P.axreg], rw, w, rw - w), rw - w, v, w); return true; }
      auto &p = P.op[o.idx]; if (p.mem) return store(argv(p.arg), w, v); unsigned rw = p.w; st.regs[p.reg] = w >= rw ? setW(v, w, rw) : w == 32 ? mkZext(v, 32, rw) : mkConcat(mkExtract(st.regs[p.reg], rw, w, rw - w), rw - w, v, w); return true; };
    auto logicFlags = [&](Val v) { st.zf = mkCmp(K_EQ, v, Val(0), w); st.sf = mkExtract(v, w, w - 1, 1); };
    auto sb = [&](Val v) { return mkExtract(v, w, w - 1, 1); };
    Val d, s; AOp *dst = in.ops.empty() ? nullptr : &in.ops.back(), *src = in.ops.size() > 1 ? &in.ops[0] : nullptr;
    if (!dst) { unmodelled("inline asm: " + m); return; }
    if (setcc) { Val c; if (m == "setz" || m == "sete") c = st.zf; else if (m == "setnz" || m == "setne") c = bNot(st.zf); else if (m == "sets") c = st.sf; else if (m == "setns") c = bNot(st.sf); else if (m == "setc" || m == "setb") c = st.cf; else { unmodelled("inline asm: " + m); return; } if (!put(*dst, mkZext(c, 1, 8))) return; st.pc++; continue; }
    if (m == "mov") { if (!get(*src, s) || !put(*dst, s)) return; st.pc++; continue; }
    const AOp *memO = memop >= 0 ? &in.ops[memop] : nullptr;
    Val memV; if (memO) { if (st.phase) memV = st.tmp; else if (!get(*memO, memV)) return; }
    if (rmw && !locked && !st.phase && S->th.size() > 1) { st.phase = true; st.tmp = memV; yieldPoint(); if (dead) return; }
    auto getv = [&](const AOp *o, Val &out) -> bool { if (o == memO) { out = memV; return true; } return get(*o, out); };
    if (!getv(dst, d)) return; if (src && !getv(src, s)) return;
    st.phase = false;
    Val r; bool wr = true;
    if (m == "inc" || m == "dec") { Val ocf = st.cf; r = mkBin(m == "inc" ? K_ADD : K_SUB, d, Val(1), w); logicFlags(r); st.cf = ocf; st.of = mkCmp(K_EQ, r, Val(m == "inc" ? 1ULL << (w - 1) : (1ULL << (w - 1)) - 1), w); }
    else if (m == "add" || m == "xadd") { r = mkBin(K_ADD, d, s, w); logicFlags(r); st.cf = mkCmp(K_ULT, r, d, w); st.of = bAnd(bNot(mkBin(K_XOR, sb(d), sb(s), 1)), mkBin(K_XOR, sb(d), sb(r), 1)); if (m == "xadd") { if (!put(*src, d)) return; } }
    else if (m == "sub" || m == "cmp") { r = mkBin(K_SUB, d, s, w); logicFlags(r); st.cf = mkCmp(K_ULT, d, s, w); st.of = bAnd(mkBin(K_XOR, sb(d), sb(s), 1), mkBin(K_XOR, sb(d), sb(r), 1)); wr = m == "sub"; }
    else if (m == "and" || m == "test") { r = mkBin(K_AND, d, s, w); logicFlags(r); st.cf = st.of = Val(0); wr = m == "and"; }
    else if (m == "or") { r = mkBin(K_OR, d, s, w); logicFlags(r); st.cf = st.of = Val(0); }
    else if (m == "xor") { r = mkBin(K_XOR, d, s, w); logicFlags(r); st.cf = st.of = Val(0); }
    else if (m == "neg") { r = mkBin(K_SUB, Val(0), d, w); logicFlags(r); st.cf = bNot(mkCmp(K_EQ, d, Val(0), w)); }
    else if (m == "not") r = mkNot(d, w);
    else if (m == "xchg") { r = s; if (!put(*src, d)) return; }
    else if (m == "cmpxchg") { Val ax; AOp axo; axo.kind = 2; axo.idx = -1; axo.w = w; if (!get(axo, ax)) return; Val eq = mkCmp(K_EQ, ax, d, w); st.zf = eq; r = mkIte(eq, s, d, w); if (!put(axo, mkIte(eq, ax, d, w))) return; }
    else { unmodelled("inline asm: " + m); return; }
    if (wr && !put(*dst, r)) return;
    st.pc++;
  }
}
