#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, props.py and seeded/RESULTS.md."""
import os, sys, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
from props import PROPS, NOT_APPLICABLE
P = {}
for l in open(R + '/properties.jsonl'):
    d = json.loads(l); P[d['id']] = d
def b(d): return ' '.join('%s=%s' % (k, v) for k, v in d.items() if k not in ('SYM', 'ICE')) 
rows = []
for i in P:
    if i not in PROPS: continue
    js = PROPS[i]['jobs']; seen = []; bs = []
    for j in js:
        if j['entry'] not in seen: seen.append(j['entry'])
        q, t = b(j['quick']), b(j['thorough'])
        if q or t: bs.append('%s: %s / %s' % (j['entry'].split('_', 1)[-1], q or '-', t or '-'))
    e = ', '.join('`%s`' % x for x in seen[:14]) + (' ...' if len(seen) > 14 else '')
    rows.append('| %s | %s | %s | %s |' % (i, e, PROPS[i].get('oracle', P[i]['title']), '; '.join(bs[:14])))
na = '\n'.join('* **%s** (%s): %s' % (i, P[i]['title'], NOT_APPLICABLE.get(i, 'no check built yet')) for i in P if i not in PROPS)
f = R + '/seeded/RESULTS.md'
s = open(R + '/tools/DESIGN.in.md').read().replace('@TABLE@', '\n'.join(rows)).replace('@NA@', na).replace('@SEEDS@', open(f).read() if os.path.exists(f) else '')
open(R + '/DESIGN.md', 'w').write(s)
