#!/usr/bin/env python3
"""DESIGN.md = tools/design.md.in + the bounds registered in the harnesses + the planted bugs"""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = {json.loads(l)['id']: json.loads(l) for l in open(V + '/properties.jsonl')}
def table():
    out = []
    for k in sorted(CHECKS):
        out.append('### %s %s' % (k, props[k]['title']))
        out.append('Over %s: %s.' % (', '.join(props[k]['quantifier']['over']), props[k]['quantifier']['text'].rstrip('.')))
        for kind, h in CHECKS[k]['harness']:
            t = open('%s/harness/%s.cpp' % (V, h)).read()
            sc = ['%s %s/%s' % (m[2], m[3], m[4]) for m in re.findall(r'(?m)^()(MC_SCENARIO(?:_F)?|SQ_SCENARIO)\((\w+), *(\d+), *(\d+)', t)]
            st = ['%s %s/%s' % (m[0], m[1], m[2]) for m in re.findall(r'MC_STRAY\((\w+), *(\d+), *(\d+)', t)]
            out.append('* `harness/%s.cpp` (%s): %s%s' % (h, 'lsmc' if kind == 'mc' else 'sq', ', '.join(sc), '; with stray wake-ups: ' + ', '.join(st) if st else ''))
        out.append('')
    return '\n'.join(out)
def seeds():
    o = []
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(d)); n = d.split('/')[-2]
        o.append('* `%s` - caught by %s%s. Needs: %s' % (n, m['property'], MISSED.get(n, ''), ' '.join(str(m['needs']).split())[:160]))
    return '\n'.join(o)
MISSED = {'c09-withdraw-stray-wake': ' (missed at first; scenarios with stray wake-ups were added)'}
t = open(V + '/tools/design.md.in').read()
t = t.replace('@TABLE@', table()).replace('@SEEDS@', seeds()).replace('@NFIX@', str(sum(1 for l in open(V + '/known_findings.txt') if l.startswith('fixed:'))))
open(V + '/DESIGN.md', 'w').write(t)
