#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
from plan import PLAN, BUDGET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rec(q):
    return dict(id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['text']), why_tests_cant=q['why'],
                anchors=dict(files=q['files'], mechanism=[dict(name=a, where=b) for a, b in q['mech']]))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in P: f.write(json.dumps(rec(q)) + '\n')
    for i, t, s, o, x, w, fl, m, r in NA: f.write(json.dumps(rec(dict(id=i, title=t, statement=s, over=o, text=x, why=w, files=fl, mech=m))) + '\n')
na = [dict(property=n[0], reason=n[-1]) for n in NA]
checks = []
for q in P:
    i = q['id']
    if i not in PLAN: na.append(dict(property=i, reason=q['note'] or 'not claimed: no simulation scenario for it has been built in this session')); continue
    checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier=quick' % i, thorough_cmd='python3 tools/check.py %s --tier=thorough' % i,
        technique='deterministic simulation with fault injection: seeded search over schedules and faults, scenarios ' + ', '.join(s for s, _ in PLAN[i]),
        level='exploration', level_note='held on every simulated run explored (bounded seeded search, no proof)', evidence_file='evidence/%s.json' % i))
m = dict(version=1, setup_cmd='python3 tools/build.py', checks=checks, hooks=dict(guard='(none)', enable='no source hooks: every seam is link-time symbol interposition and compiler instrumentation', source_commits=[]), not_applicable=na,
    notes='See DESIGN.md. Every check rebuilds from the working tree of /repo (content-addressed object cache in build/).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
