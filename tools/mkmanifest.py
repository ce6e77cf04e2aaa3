#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl (development aid)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props as P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i not in P.PROPS:
        na.append(dict(property=i, reason='the monitors of this property are not built yet'))
        continue
    c = P.PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 tools/run.py --prop %s --tier quick' % i,
                       thorough_cmd='python3 tools/run.py --prop %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=c.get('technique', 'runtime monitoring: reference-model oracle over generated calls to the address/UB-sanitized library'),
                       level=c.get('level', 'exploration'),
                       level_note=c.get('note', 'Holds on the executions counted in the evidence; no claim beyond them. Trusts gcc and its sanitizers and the reference model in harness/.')))
m = dict(version=1, setup_cmd='python3 tools/build.py asan && python3 tools/build.py plain', checks=checks, not_applicable=na,
         notes='Every check rebuilds /repo\'s sources into build/ (git-ignored) with tools/build.py and reports through tools/run.py; see DESIGN.md. No hooks are needed in /repo: the harnesses use its public interface, interposed system calls and allocation counters.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
