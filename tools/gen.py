#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run by hand when the list changes)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks_conf import CHECKS
from props import PROPS
H = 'include/boost/polygon/'
seen = set()
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert p['id'] not in seen; seen.add(p['id'])
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        rec = dict(id=p['id'], title=p['title'], statement=p['statement'],
                   quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                   anchors=dict(files=[H + x for x in p['files']], mechanism=[dict(name=n, where=H + w) for n, w in p['mech']],
                                observe_at=p['observe'], hook_needed=None))
        for x in p['files']: assert os.path.exists('/repo/' + H + x), x
        f.write(json.dumps(rec) + '\n')
checks, na = [], []
for p in PROPS:
    if p['id'] in CHECKS:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3 check.py %s --tier thorough' % p['id'], technique=p['technique'],
                           level='exploration', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=p.get('na', 'check not built yet')))
m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na,
         notes='Runtime monitoring only: the real headers are compiled from /repo/include with sanitizers, driven by generated workloads and judged by independent oracles. No hooks in /repo.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
