#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.in.md and the headers of the harnesses"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NA
from oracles import ORACLE
na = dict(NA); out = []
for p in PROPS:
    if p['id'] in na: continue
    h = open(os.path.join(V, 'harness', p['id'] + '.cpp')).read().split('\n'); d = {}
    for l in h:
        m = re.match(r'//@\s*(\w+)\s*(.*)', l)
        if m: d.setdefault(m.group(1), []).append(m.group(2).strip())
    ent = []
    for e in d.get('entry', []):
        n = e.split()[0]; q = re.search(r'quick="([^"]*)"', e); t = re.search(r'thorough="([^"]*)"', e); o = re.search(r'opts="([^"]*)"', e)
        ent.append('`%s`%s%s' % (n, ' (%s → %s)' % (q.group(1), t.group(1) if t else q.group(1)) if q else '', ' `%s`' % o.group(1) if o else ''))
    out.append('### %s: %s\n' % (p['id'], p['title']))
    out.append('- **Oracle and method.** ' + ORACLE[p['id']])
    out.append('- **Code executed.** ' + ' '.join('`%s`' % f for f in p['files']) + ' (compiled from the working tree on every run).')
    out.append('- **Bounds.** ' + '; '.join(d.get('bound', ['-'])) + '.')
    if d.get('assume'): out.append('- **Assumed.** ' + '; '.join(d['assume']) + '.')
    out.append('- **Entries** (quick → thorough parameters). ' + ', '.join(ent) + '.')
    out.append('- **Why tests cannot.** ' + p['why'])
    out.append('')
out.append('## Not applicable\n')
for p in PROPS:
    if p['id'] in na: out.append('- **%s %s**: %s.' % (p['id'], p['title'], na[p['id']]))
fixed = ''
for l in open(os.path.join(V, 'known_findings.jsonl')):
    if l.strip():
        k = json.loads(l); fixed += '- %s `%s` %s\n' % (k['property'], k['commit'], k['what'].split(' ', 3)[3])
s = open(os.path.join(V, 'tools/design.in.md')).read().replace('@@PROPERTIES@@', '\n'.join(out)).replace('@@FIXED@@', fixed.rstrip())
rows = ''
for i in sorted(os.listdir(os.path.join(V, 'seeded'))) if os.path.isdir(os.path.join(V, 'seeded')) else []:
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json'))); rows += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], m['what_it_breaks'])
s = s.replace('@@SEEDS@@', rows.rstrip())
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
