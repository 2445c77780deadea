"""writes properties.jsonl from the statement modules"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props3 import P
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))

sys.path.insert(0, root)
from sa.spec.registry import RULES
from props3 import NA
checks, na = [], []
reasons = {n[0]: n[3] for n in NA}
for x in P:
    i = x['id']
    if i in RULES:
        r = RULES[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                       'technique': 'static analysis: ' + r[3], 'level': 'proof',
                       'level_note': 'Every obligation is decided on the value graph extracted from the current source by abstract interpretation (no execution, no external solver), for all inputs in exact real arithmetic; '
                                     'trusted: the analyser and its models of numpy, scipy, jax, pint and pydantic. Obligations it cannot decide are listed as UNDECIDED in the evidence and are not claimed.'})
    else:
        na.append({'property': i, 'reason': reasons.get(i, 'rule not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa >/dev/null 2>&1; true', 'checks': checks, 'not_applicable': na,
           'notes': 'Pure-stdlib abstract interpreter in sa/; rules in sa/spec; no hooks in /repo.'}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
