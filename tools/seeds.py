#!/usr/bin/env python3
"""Applies each planted change of seeded/ to /repo, runs the check of its property, undoes it, and
writes seeded/RESULTS.md.  usage: seeds.py [id...]"""
import sys, os, json, subprocess, time, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(d for d in os.listdir(R + '/seeded') if os.path.isdir(R + '/seeded/' + d))
res = {}
f = R + '/seeded/RESULTS.md'
if os.path.exists(f):
    for l in open(f):
        m = re.match(r'\| (\S+) \| (\S+) \| (\w+) \| (.*) \|$', l)
        if m: res[m.group(1)] = m.groups()[1:]
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True, cwd=R)
for i in ids:
    p = json.load(open(R + '/seeded/%s/meta.json' % i))['property']
    assert not sh('git -C /repo status --porcelain').stdout
    try:
        if sh('git -C /repo apply %s/seeded/%s/patch.diff' % (R, i)).returncode: print(i, 'does not apply'); continue
        t = time.time(); r = sh('python3 check.py ' + p)
        how = '; '.join(sorted({re.sub(r' at .*', '', l) for l in r.stdout.split('\n') if re.match(r'\w+: .* at ', l)}))[:160]
        res[i] = (p, 'caught' if r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout else 'missed', how.replace('|', '/'))
        print(i, res[i], '%.0fs' % (time.time() - t), flush=True)
    finally: sh('git -C /repo checkout -- .')
open(f, 'w').write('| planted change | property | quick check | reported as |\n|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s |\n' % ((i,) + tuple(res[i])) for i in sorted(res) if os.path.isdir(R + '/seeded/' + i)))
