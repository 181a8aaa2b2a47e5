#!/usr/bin/env python3
"""Decide one property of Lintel by symbolic execution of its current source.

  check.py PROPERTY [quick|thorough]        run the check (exit 0 held, 1 + VIOLATION line, 2 error)
  check.py PROPERTY --replay FILE           run a recorded counterexample against the real code
  check.py --setup                          build the engine
"""
import sys, os, subprocess, json, time, shlex, shutil, glob, re, threading, fcntl, hashlib, resource
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('LINTEL_REPO', '/repo')
BUILD = os.path.join(V, 'build')
CLANG = '/usr/bin/clang++-18'
DEFS = ['-DNDEBUG', '-Dpthread_mutexattr_setkind_np=pthread_mutexattr_settype']
BC = [CLANG, '-std=gnu++17', '-O1', '-fno-pie', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only',
      '-include', os.path.join(V, 'rt/cfg.h'), '-Wno-everything', '-Dsymx_build=1'] + DEFS
T0 = time.time()
QUIET = False
def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)
class CheckError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def setup():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-j8', '-C', os.path.join(V, 'engine'), 'B=' + BUILD])
        if r.returncode: raise CheckError('engine build failed:\n' + r.stdout[-3000:])
        for n, extra in (('rt', ['-fno-builtin']), ('assertstub', [])):
            src = os.path.join(V, 'rt', n + '.cpp'); out = os.path.join(BUILD, n + '.bc')
            if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
                r = sh(BC + extra + ['-I' + os.path.join(V, 'rt', 'stubs'), src, '-o', out + '.tmp'])
                if r.returncode: raise CheckError('runtime build failed:\n' + r.stdout[-3000:])
                os.rename(out + '.tmp', out)

def parse_harness(prop):
    path = os.path.join(V, 'harness', prop + '.cpp')
    cfg = dict(path=path, src=[], entries=[], assume=[], bound=[], define=[], nativesrc=[], symsrc=[], level='model_checking', noassert=False, bcflags=[], nativeflags=[], excl=[])
    for line in open(path):
        m = re.match(r'//@\s*(\w+)\s*(.*)', line)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'src': cfg['src'] += v.split()
        elif k == 'nativesrc': cfg['nativesrc'] += v.split()
        elif k == 'symsrc': cfg['symsrc'] += v.split()
        elif k == 'define': cfg['define'] += ['-D' + x for x in v.split()]
        elif k == 'bcflags': cfg['bcflags'] += v.split()
        elif k == 'nativeflags': cfg['nativeflags'] += v.split()
        elif k == 'assume': cfg['assume'].append(v)
        elif k == 'bound': cfg['bound'].append(v)
        elif k == 'level': cfg['level'] = v
        elif k == 'noassertstub': cfg['noassert'] = True
        elif k == 'entry':
            t = shlex.split(v); e = dict(name=t[0], quick='', thorough=None, opts='', reach=[], tier='quick', stress=None, threads=False, known=None)
            for x in t[1:]:
                a, b = x.split('=', 1)
                if a == 'reach': e['reach'] = b.split(',')
                else: e[a] = b
            if e['thorough'] is None: e['thorough'] = e['quick']
            cfg['entries'].append(e)
        else: raise CheckError('unknown directive //@ ' + k)
    return cfg

def gen_headers(work):
    inc = os.path.join(work, 'gen', 'Lintel'); os.makedirs(inc, exist_ok=True)
    t = open(os.path.join(REPO, 'include/Lintel/PThread.hpp.in')).read()
    t = t.replace('@HAS_PTHREAD_ISLOCKED@', '1').replace('@PTHREAD_ISLOCKED_EXPR@', 'm.__data.__lock != 0')
    open(os.path.join(inc, 'PThread.hpp'), 'w').write(t)
    return ['-I' + os.path.join(work, 'gen'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'include/Lintel') + '/../']

def srcpath(s):
    if s.startswith('verif:'): return os.path.join(V, s[6:])
    return os.path.join(REPO, s)

def build_bc(cfg, work):
    inc = gen_headers(work)
    d = os.path.join(work, 'bc'); os.makedirs(d, exist_ok=True)
    jobs = []
    for i, s in enumerate([cfg['path']] + [srcpath(x) for x in cfg['src'] + cfg['symsrc']]):
        out = os.path.join(d, '%d_%s.bc' % (i, os.path.basename(s)))
        jobs.append((s, out, BC + cfg['define'] + cfg['bcflags'] + ['-I' + os.path.join(V, 'rt', 'stubs'), '-I' + os.path.join(V, 'rt'), '-I' + os.path.join(V, 'harness')] + inc + [s, '-o', out]))
    def run(j):
        r = sh(j[2]);
        if r.returncode: raise CheckError('cannot compile %s to bitcode:\n%s' % (j[0], r.stdout[-3000:]))
        return j[1]
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(run, jobs))
    outs.append(os.path.join(BUILD, 'rt.bc'))
    if not cfg['noassert']: outs.append(os.path.join(BUILD, 'assertstub.bc'))
    return outs

NATIVE_ALWAYS = ['src/AssertBoost.cpp', 'src/AssertException.cpp']
def build_native(cfg, work, kind):
    """kind: plain | asan | plain0 (zero-initialised stack) | plainp (pattern-initialised stack)"""
    inc = gen_headers(work)
    d = os.path.join(work, 'nat_' + kind); os.makedirs(d, exist_ok=True)
    cc = ['g++', '-std=gnu++17', '-O1', '-g1', '-w', '-pthread', '-DSYMX_NATIVE=1'] + DEFS
    if kind == 'asan': cc += ['-fsanitize=address', '-fno-omit-frame-pointer', '-DSYMX_ASAN=1']
    if kind == 'plain0': cc += ['-ftrivial-auto-var-init=zero']
    if kind == 'plainp': cc += ['-ftrivial-auto-var-init=pattern']
    srcs = [cfg['path'], os.path.join(V, 'rt/native.cpp')] + [srcpath(x) for x in cfg['src'] + cfg['nativesrc']]
    for x in NATIVE_ALWAYS:
        if srcpath(x) not in srcs: srcs.append(srcpath(x))
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, '%d.o' % i)
        jobs.append((s, o, cc + cfg['define'] + cfg['nativeflags'] + ['-I' + os.path.join(V, 'rt'), '-I' + os.path.join(V, 'harness')] + inc + ['-c', s, '-o', o]))
    def run(j):
        r = sh(j[2])
        if r.returncode: raise CheckError('cannot compile %s natively:\n%s' % (j[0], r.stdout[-3000:]))
        return j[1]
    with ThreadPoolExecutor(8) as ex: outs = list(ex.map(run, jobs))
    exe = os.path.join(d, 'native')
    r = sh(['g++', '-pthread'] + (['-fsanitize=address'] if kind == 'asan' else []) + outs + ['-o', exe] + [f for f in cfg['nativeflags'] if f.startswith('-l')])
    if r.returncode: raise CheckError('native link failed:\n' + r.stdout[-3000:])
    return exe

def params_of(e, tier): return e[tier].split()

class Native:
    def __init__(self, cfg, work):
        self.cfg, self.work, self.exe, self.lock = cfg, work, {}, threading.Lock()
    def get(self, kind):
        with self.lock:
            if kind not in self.exe: self.exe[kind] = build_native(self.cfg, self.work, kind)
            return self.exe[kind]
    def run(self, kind, inp, params, env=None, timeout=30, prefix=[]):
        exe = self.get(kind); e = dict(os.environ); e.update({'ASAN_OPTIONS': 'exitcode=66:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=1', 'LC_ALL': 'C'}); e.update(env or {})
        def lim(): resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        d = os.path.join(self.work, 'cwd%d' % threading.get_ident()); os.makedirs(d, exist_ok=True)
        try:
            r = subprocess.run(prefix + [exe, inp] + params, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=d, preexec_fn=lim, stdin=subprocess.DEVNULL)
            return r.returncode, r.stdout.decode('latin1')
        except subprocess.TimeoutExpired as ex:
            return 'timeout', (ex.stdout or b'').decode('latin1')

def failing(rc, out):
    """does this native outcome show the failure?"""
    if rc == 'timeout': return 'does not terminate'
    if rc == 77: return 'assertion: ' + ' '.join(re.findall(r'SYMX-ASSERT (.*)', out)[:1])
    if rc == 66: return 'address sanitizer: ' + ' '.join(re.findall(r'AddressSanitizer: (\S+)', out)[:1])
    if rc == 80: return 'aborts'
    if rc == 81: return 'signal ' + ' '.join(re.findall(r'SYMX-SIGNAL (\d+)', out)[:1])
    if rc == 99: return 'valgrind: use of uninitialised or invalid memory'
    if isinstance(rc, int) and rc < 0: return 'killed by signal %d' % -rc
    return None

def confirm(nat, vfile, info, params, tmo=20):
    """replay a counterexample against the real code; returns (how, output) or None"""
    tries = [('asan', {}), ('plain', {}), ('plain', {'SYMX_FILL': '0'}), ('plain', {'SYMX_FILL': '255'}), ('plain', {'SYMX_FILL': '165'})]
    if info['kind'] == 'assert' and not info['uninit']: tries = [tries[1], tries[0]] + tries[2:]
    last = ''
    for k, env in tries:
        rc, out = nat.run(k, vfile, params, env, timeout=tmo)
        h = failing(rc, out)
        last += '%s %s -> rc=%s %s\n' % (k, env, rc, out[-400:])
        if h and not (h == 'does not terminate' and info['kind'] not in ('nonterm', 'livelock', 'deadlock', 'uninit')): return ('%s build: %s' % (k, h), out)
    if info['uninit']:
        for k in ('plain0', 'plainp'):
            rc, out = nat.run(k, vfile, params, {'SYMX_FILL': '165'}, timeout=tmo); h = failing(rc, out)
            if h: return ('%s build: %s' % (k, h), out)
        rc, out = nat.run('plain', vfile, params, {}, timeout=120, prefix=['valgrind', '-q', '--error-exitcode=99'])
        h = failing(rc, out)
        if h: return ('valgrind: ' + h, out)
    info['tries'] = last
    return None

def read_viol(f):
    d = dict(kind='', msg='', site='', entry='', uninit=0, stack='', inputs=[])
    txt = open(f, errors='replace').read()
    for k in ('kind', 'msg', 'site', 'entry'):
        m = re.search(r'^%s (.*)$' % k, txt, re.M); d[k] = m.group(1) if m else ''
    m = re.search(r'^uninit (\d+)', txt, re.M); d['uninit'] = int(m.group(1)) if m else 0
    m = re.search(r'^stack\n(.*)', txt, re.M | re.S); d['stack'] = m.group(1) if m else ''
    m = re.search(r'^inputs\n(.*?)^end', txt, re.M | re.S); d['inputs'] = m.group(1).split('\n')[:-1] if m else []
    return d

def known_findings():
    out = []
    p = os.path.join(V, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                k = json.loads(l)
                if k.get('status') == 'open': out.append(k)
    return out

def run_entry(e, bcs, work, tier, procs, budget, seed, dump):
    out = os.path.join(work, 'out_' + e['name']); os.makedirs(out, exist_ok=True)
    cmd = [os.path.join(BUILD, 'symx'), '--entry', e['name'], '--out', out, '--procs', str(procs), '--max-time', str(int(budget)), '--seed', str(seed), '--timeout-ms', '60000' if tier == 'quick' else '240000']
    for p in params_of(e, tier): cmd += ['--param', p]
    cmd += shlex.split(e['opts'])
    if dump: os.makedirs(out + '/smt', exist_ok=True); cmd += ['--dump', out + '/smt']
    t = time.time(); r = sh(cmd + bcs)
    res = os.path.join(out, 'result.json')
    if r.returncode or not os.path.exists(res): raise CheckError('engine failed on %s (rc %s):\n%s' % (e['name'], r.returncode, r.stdout[-2000:]))
    d = json.load(open(res)); d['out'] = out; d['log'] = r.stdout[-2000:]; d['t'] = time.time() - t
    return d

def cross_check(outs, limit):
    """re-decide a sample of the solver queries with two other solvers"""
    fs = []
    for o in outs: fs += sorted(glob.glob(o + '/smt/*.smt2'))
    fs = fs[:: max(1, len(fs) // limit)][:limit]
    agree = 0; unk = 0
    def one(f):
        want = 'unsat' if f.endswith('_unsat.smt2') else 'sat'
        for cmd in (['cvc5', '--tlimit=8000', f], ['/opt/veriftools/pyvenv/bin/z3', '-T:8', f]):
            try: r = sh(cmd, timeout=15).stdout.strip().split('\n')
            except Exception: continue
            r = [x for x in r if x in ('sat', 'unsat')]
            if r and r[0] != want: raise CheckError('solver disagreement on %s: %s says %s' % (f, cmd[0], r[0]))
            if r: return 1
        return 0
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, fs))
    return len(fs), sum(rs)

def main(prop, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    setup()
    cfg = parse_harness(prop)
    work = os.path.join(BUILD, 'work', '%s-%s-%d' % (prop, tier, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        return run(prop, tier, seed, cfg, work)
    finally:
        if not os.environ.get('KEEP_WORK'): shutil.rmtree(work, ignore_errors=True)

def run(prop, tier, seed, cfg, work):
    nat = Native(cfg, work)
    natex = ThreadPoolExecutor(2); natf = natex.submit(nat.get, 'plain')
    bcs = build_bc(cfg, work)
    log('bitcode built')
    only = os.environ.get('SYMX_ONLY')
    ents = [e for e in cfg['entries'] if (tier == 'thorough' or e['tier'] == 'quick') and (not only or e['name'] in only.split(','))]
    budget = float(os.environ.get('SYMX_BUDGET', '600' if tier == 'quick' else '3000'))
    limit = 800 if tier == 'quick' else 1e9
    conc = 4 if len(ents) >= 4 else max(1, len(ents))
    results = {}; errs = []; confirmed = []; unconfirmed = []; knownhit = []
    known = [k for k in known_findings() if k['property'] == prop]
    def work1(e):
        if confirmed and tier == 'quick': return
        d = run_entry(e, bcs, work, tier, max(2, (8 + conc - 1) // conc + 1), max(5, min(budget, limit - (time.time() - T0))), seed, True)
        results[e['name']] = d
        log('%-22s paths=%d states=%d queries=%d bb=%d z3=%d %.1fs solver=%.1fs viol=%d incon=%d aborts=%d' % (e['name'], d['paths'], d['states'], d['queries'], d['bbcalls'], d['z3calls'], d['t'], d['solver_s'], d['violations'], d['inconclusive'], d['aborts']))
        vs = sorted(glob.glob(d['out'] + '/viol_*.txt'))
        for vf in vs:
            info = read_viol(vf); info['file'] = vf; info['e'] = e
            kf = [k for k in known if k['entry'] == e['name'] and k['kind'] == info['kind'] and k['msg'] in info['msg'] and k.get('site', '') in info['stack'] + info['site']]
            if e['stress']:
                sf = vf + '.stress'; open(sf, 'w').write(open(vf).read().replace('entry ' + e['name'], 'entry ' + e['stress']))
                h = confirm(nat, sf, info, params_of(e, tier), tmo=90)
            else: h = confirm(nat, vf, info, params_of(e, tier))
            if h and kf: knownhit.append((kf[0], info, h))
            elif h: confirmed.append((info, h)); break
            else: unconfirmed.append(info)
    with ThreadPoolExecutor(conc) as ex:
        for f in [ex.submit(work1, e) for e in ents]:
            try: f.result()
            except CheckError as x: errs.append(str(x))
    log('symbolic execution done')
    # validation of the engine against the real code on sampled paths
    validated = 0; mism = []
    if not confirmed:
        try: natf.result()
        except CheckError as x: errs.append(str(x))
    if not confirmed and not errs:
        sam = []
        for e in ents:
            for f in sorted(glob.glob(results[e['name']]['out'] + '/sample_*.txt')): sam.append((e, f))
        def val(x):
            e, f = x; txt = open(f).read(); want = re.search(r'^trace ?(.*)$', txt, re.M).group(1).split(); how = re.search(r'^kind (.*)$', txt, re.M).group(1)
            rc, out = nat.run('plain', f, params_of(e, tier), timeout=60)
            got = re.findall(r'^T (\d+)$', out, re.M)
            end = (re.findall(r'SYMX-END (\S+)', out) or ['?'])[-1]
            if (how == 'done' and (rc != 0 or end != 'done')) or (how == 'abort' and end not in ('abort-allowed',)) or (how == 'done' and got != want):
                k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), -1)
                return '%s %s: engine says %s, native rc=%s %s; first trace difference at %d (%d/%d): %s vs %s' % (e['name'], os.path.basename(f), how, rc, end, k, len(want), len(got), want[k:k+3], got[k:k+3])
            return None
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(val, sam):
                if r: mism.append(r)
                else: validated += 1
        log('%d sampled paths validated natively, %d mismatches' % (validated, len(mism)))
    xc = (0, 0)
    if not confirmed and not errs:
        try: xc = cross_check([r['out'] for r in results.values()], 10 if tier == 'quick' else 60)
        except CheckError as x: errs.append(str(x))
    natex.shutdown(wait=True)
    for m in mism: errs.append('engine/native mismatch: ' + m)
    for e in ents:
        r = results.get(e['name'])
        if not r: continue
        miss = [l for l in e['reach'] if l not in r['reach']]
        if miss and not r['violations']: errs.append('%s: witness not reached: %s' % (e['name'], miss))
        if r['paths'] == 0 and not r['violations']: errs.append('%s: no path completed' % e['name'])
        if r['crash']: errs.append('%s: %d worker(s) died: %s' % (e['name'], r['crash'], r['log'][-500:]))
        if r['inconclusive']: errs.append('%s: inconclusive: %s' % (e['name'], sorted(set(r['inconclusive_msgs']))[:6]))
    for u in unconfirmed: errs.append('counterexample not reproduced natively: %s %s: %s\n%s\ninputs %s\n%s' % (u['entry'], u['kind'], u['msg'], u['stack'][:600], u['inputs'][:12], u.get('tries', '')[-1500:]))
    # evidence
    R = list(results.values()); S = lambda k: sum(r[k] for r in R)
    fns = {}; lines = {}
    for r in R:
        for f in r['functions']: fns[f['f']] = os.path.relpath(f['file'], REPO)
        for f, (a, b) in r['lines'].items():
            k = os.path.relpath(f, REPO); o = lines.get(k, [0, 0]); lines[k] = [max(o[0], a), max(o[1], b)]
    samples = []
    for r in R:
        for f in sorted(glob.glob(r['out'] + '/sample_*.txt'))[:2]:
            t = open(f).read(); samples.append({'entry': r['entry'], 'inputs': re.search(r'^inputs\n(.*?)^end', t, re.M | re.S).group(1).split('\n')[:24], 'trace': re.search(r'^trace ?(.*)$', t, re.M).group(1)[:200]})
        if not samples and r['paths']: samples.append({'entry': r['entry'], 'paths': r['paths'], 'note': 'multi-threaded entry: schedules explored symbolically'})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'wall_s': round(time.time() - T0, 2), 'violations': len(confirmed),
          'assumptions': cfg['assume'] + ['bounds: ' + b for b in cfg['bound']],
          'coverage': {'states': S('states'), 'transitions': S('insts'), 'traces_validated_against_impl': validated, 'samples': samples[:10],
                       'paths_completed': S('paths'), 'paths_ending_in_accepted_abort': S('aborts'), 'assertions_decided': S('asserts'), 'solver_queries': S('queries'), 'z3_calls': S('z3calls'), 'bit_blasted_sat_calls': S('bbcalls'), 'query_cache_hits': S('cacheHits'), 'model_reuse_hits': S('modelHits'),
                       'solver_unknowns': S('unknowns'), 'solver_time_s': round(S('solver_s'), 3), 'max_query_s': max([r['max_query_s'] for r in R] or [0]), 'inconclusive': S('inconclusive'),
                       'queries_cross_checked': xc[0], 'queries_cross_check_agreed': xc[1],
                       'entries': [{'entry': r['entry'], 'params': next(e for e in ents if e['name'] == r['entry'])[tier], 'paths': r['paths'], 'states': r['states'], 'instructions': r['insts'], 'queries': r['queries'], 'solver_s': r['solver_s'], 'wall_s': r['wall_s'], 'witnesses': r['reach']} for r in R],
                       'functions_encoded': ['%s: %s' % (f, n[:160]) for n, f in sorted(fns.items(), key=lambda x: (x[1], x[0]))][:200], 'lines_executed': {k: '%d of %d with code' % tuple(v) for k, v in sorted(lines.items())}, 'bounds': cfg['bound'], 'exhaustive': not errs and not confirmed}}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for k, info, h in knownhit: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for k in known:
        if tier == 'quick' or True:
            if not any(x[0] is k for x in knownhit) and k['entry'] in results and not only: log('note: listed finding did not show up: ' + k['what'])
    if confirmed:
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
        for info, h in confirmed:
            h8 = hashlib.sha1((info['entry'] + info['msg'] + info['site']).encode()).hexdigest()[:8]
            dst = os.path.join(V, 'replays', '%s-%s.txt' % (prop, h8))
            txt = open(info['file'], errors='replace').read()
            open(dst, 'w').write('params %s\n' % ' '.join(params_of(info['e'], tier)) + txt + '\nconfirmed: %s\nnative output (tail):\n%s\n' % (h[0], h[1][-1500:]))
            log('violated: %s: %s: %s (%s)' % (info['entry'], info['kind'], info['msg'], h[0]))
            log('  at ' + info['site'] + '; inputs: ' + '; '.join(info['inputs'][:16]))
            print('VIOLATION property=%s replay=%s' % (prop, dst), flush=True)
        return 1
    if errs:
        for e in errs: print('ERROR: ' + e[:3000], flush=True)
        return 2
    log('%s (%s): held on everything explored: %d paths, %d queries, solver %.1f s' % (prop, tier, S('paths'), S('queries'), S('solver_s')))
    return 0

def replay(prop, f):
    setup(); cfg = parse_harness(prop); work = os.path.join(BUILD, 'work', 'replay-%d' % os.getpid()); os.makedirs(work)
    try:
        nat = Native(cfg, work); info = read_viol(f); m = re.search(r'^params (.*)$', open(f).read(), re.M); ps = m.group(1).split() if m else []
        h = confirm(nat, f, info, ps)
        print('reproduced: %s\n%s' % (h[0], h[1][-2000:]) if h else 'not reproduced\n' + info.get('tries', ''))
        return 1 if h else 0
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    try:
        if len(sys.argv) > 1 and sys.argv[1] == '--setup': setup(); sys.exit(0)
        if len(sys.argv) > 3 and sys.argv[2] == '--replay': sys.exit(replay(sys.argv[1], sys.argv[3]))
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
    except CheckError as e:
        print('ERROR: ' + str(e)[:4000]); sys.exit(2)
