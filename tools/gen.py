#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LVL = ('bounded symbolic execution of the LLVM IR of the real code, regenerated from the working tree on every run: every path within the stated bounds is followed and each assertion, '
       'memory access and refusal decided by a SAT/SMT solver over all values of the symbolic inputs; exhaustive within the bounds (listed in the evidence), nothing is claimed beyond them. '
       'Trusts clang 18 -O1, the engine in /verif/engine (its verdicts are sampled against z3 and cvc5, its paths against natively compiled code) and the environment models in rt/rt.cpp.')
na = dict(NA); checks = []; ids = set()
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert p['id'] not in ids and len(p['title']) <= 80, p['title']; ids.add(p['id'])
        why = p['why']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['obs']: a['observe_at'] = p['obs']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['st'] if 'st' in p else p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': why, 'anchors': a}) + '\n')
        if p['id'] in na: continue
        h = os.path.join(V, 'harness', p['id'] + '.cpp'); assert os.path.exists(h), h
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': 'symbolic execution of the compiled source (LLVM IR) with SAT/SMT-decided assertions, bounded; counterexamples replayed natively', 'level': 'model_checking', 'level_note': LVL})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks compile the unmodified sources', 'source_commits': []}, 'checks': checks,
           'not_applicable': [{'property': i, 'reason': r} for i, r in NA]}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks')
