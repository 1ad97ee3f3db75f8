#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
NOTE = ('Every value of the symbolic inputs and every history within the bounds printed in the evidence file is decided by the solver over the LLVM IR of the real headers; '
        'outside the bounds nothing is claimed. Trusted: clang 18 front end, the IR interpreter in sx/engine (cross-checked on every run against the natively compiled code on sampled paths), Z3/cvc5, the models of libc/libstdc++ entry points listed in DESIGN.md.')
checks = []
for i in ids:
    if i in PROPS:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': PROPS[i].get('technique', 'bounded symbolic execution of the real code (clang LLVM IR) with SMT (Z3, cvc5), counterexamples replayed natively'), 'level': 'model_checking', 'level_note': PROPS[i].get('note', '') + NOTE})
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')} for i in ids if i not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: harnesses include the headers directly. fix: commits in /repo are listed in known-findings.txt.'}, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
