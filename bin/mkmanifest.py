#!/usr/bin/env python3
"""Regenerates MANIFEST.json from harness/jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
import jobs
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = getattr(jobs, 'NOT_APPLICABLE', {})
checks = []
for i in ids:
    if i in NA or i not in jobs.PROPS or not jobs.PROPS[i]['bounds']:
        continue
    p = jobs.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s --tier quick' % i, thorough_cmd='python3 bin/check.py %s --tier thorough' % i,
                       technique='symbolic execution of the compiled sources (LLVM IR), decided by z3 (bit-vectors to SAT); counterexamples replayed natively',
                       level='model_checking',
                       level_note='Holds for every value within these bounds: %s. Outside: %s. Trusted: clang\'s -O1 IR, the symbolic executor, z3, and the small model of compiled libstdc++/libc parts (rt/rt.cpp).'
                       % (p['bounds'], p.get('outside', 'see DESIGN.md'))))
claimed = {c['property'] for c in checks}
na = [dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in claimed]
m = dict(version=1, setup_cmd='mkdir -p build && bash engine/build.sh build/symex', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', 'not claimed:', [x['property'] for x in na])
