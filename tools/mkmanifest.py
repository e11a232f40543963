#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and the list of properties which are not applicable."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import checks
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
NA = getattr(checks, 'NOT_APPLICABLE', {})
m = {'version': 1, 'setup_cmd': 'python3 vp.py setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        bounds = '; '.join(f"{h['name']}: {h['bounds']}" for h in c['harnesses'])
        m['checks'].append({'property': i, 'quick_cmd': f'python3 vp.py check {i} --tier quick', 'thorough_cmd': f'python3 vp.py check {i} --tier thorough',
            'technique': 'symbolic execution of the LLVM IR of the real sources, path conditions and assertions decided by Z3 (bit vectors), counterexamples replayed on the native build',
            'level': 'model_checking', 'level_note': 'every value within the bounds; ' + bounds, 'evidence_file': f'evidence/{i}.json'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not decided yet: the harness for it is not finished')})
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
