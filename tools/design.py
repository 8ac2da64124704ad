"""Writes DESIGN.md from the handwritten text in design_text.py and the facts in checks.py, props.py and the harnesses."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
import checks, props, design_text as dt
KF = [json.loads(l) for l in open(V + '/known_findings.jsonl')]
intro = open(HERE + '/design_intro.md').read(); tail = open(HERE + '/design_tail.md').read()
o = [intro, '\n## Properties\n']
for p in props.P:
    pid = p['id']; c = checks.CHECKS[pid]; src = [s for u in c['units'] for s in u['sources']]
    orc, reach, und = dt.T[pid]
    o.append('\n### %s %s\n' % (pid, p['title']))
    o.append('- **Oracle.** %s' % orc)
    o.append('- **Workload.** %s.' % c['rule'].rstrip('.'))
    fam = []
    for s in dict.fromkeys(src):
        for m in re.finditer(r'VH_FAMILY(_CPU)?\(([a-z_A-Z0-9]+), *(\d+), *(\d+)', open(os.path.join(V, s)).read()): fam.append('%s %s/%s' % m.group(2, 3, 4))
    o.append('- **Families** (cases quick/thorough, `%s`): %s.' % ('`, `'.join(dict.fromkeys(src)), ', '.join(fam)))
    o.append('- **Builds.** %s.' % ', '.join(dict.fromkeys(u.get('variant', 'asan') for u in c['units'])))
    o.append('- **Must have been observed** (else no answer): %s.' % ', '.join('%s >= %d' % kv for kv in c.get('require', {}).items()))
    o.append('- **Beyond the tests.** %s' % reach)
    o.append('- **Not decided / assumed.** %s Assumptions: %s.' % (und, '; '.join(c['assumptions'])))
    fx = [k for k in KF if k.get('property') == pid and k['status'] == 'fixed']; kn = [k for k in KF if k.get('property') == pid and k['status'] == 'known']
    n = len(fx)
    o.append('- **Defects.** %d repaired (see known_findings.jsonl)%s.' % (n, '; recorded: ' + '; '.join('`%s`' % k['key'] for k in kn) if kn else ''))
o.append('\n## Planted bugs (`seeded/`)\n\n| id | property | needs | caught by |\n|---|---|---|---|')
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % s)); o.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), m['property']))
o.append('\n' + tail)
open(V + '/DESIGN.md', 'w').write('\n'.join(o).replace('\n\n\n', '\n\n') + ('' if tail.endswith('\n') else '\n'))
