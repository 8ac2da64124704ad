#!/usr/bin/env python3
import sys, os, tempfile, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run_check as rc
from checks import CHECKS
pid, unit, fam, case, seed = sys.argv[1:6]
spec = dict(CHECKS[pid])
spec['units'] = [u for u in spec['units'] if u.get('name', 'main') == unit]
for u in spec['units']:
    u.setdefault('name', 'main'); u.setdefault('variant', 'asan')
d = tempfile.mkdtemp(prefix='vfr_')
try:
    rc.build(spec, d)
    u = spec['units'][0]
    env = dict(rc.ENV); env.update(u.get('env', {}))
    sys.exit(subprocess.run([u['_exe'], '--seed', seed, '--family', fam, '--case', case, '--dir', d] + sys.argv[6:], env=env, cwd=d).returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
