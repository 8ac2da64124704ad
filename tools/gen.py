#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py, checks.py and notes.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import P
from checks import CHECKS, NOT_APPLICABLE
for p in P:
    assert len(p['title']) <= 80, p['id']
    for f in p['anchors']['files']:
        assert os.path.exists(os.path.join('/repo', f)), (p['id'], f)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + '\n')
ids = [p['id'] for p in P]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd='python3 tools/run_check.py %s --tier quick' % i,
                       thorough_cmd='python3 tools/run_check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=c.get('technique', 'runtime monitoring: generated workloads under ASan+UBSan with reference oracles'),
                       level=c['level'], level_note=c.get('level_note', 'holds on the executions produced; seeds, counts and observed events are in the evidence file')))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         hooks=dict(guard='DELFEM2_VERIF', enable='no hook was needed: every monitor observes the public interface; the guard is reserved and unused', source_commits=[]),
         notes='quick commands build the harness from /repo and run it; see DESIGN.md')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p, s)
    print('schemas ok: %d properties, %d checks' % (len(P), len(checks)))
except ImportError:
    print('%d properties, %d checks (no jsonschema)' % (len(P), len(checks)))
