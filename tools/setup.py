#!/usr/bin/env python3
"""Nothing is kept between runs; check that the toolchain the checks need is here."""
import subprocess, sys, tempfile, os
d = tempfile.mkdtemp()
src = os.path.join(d, 'a.cpp')
open(src, 'w').write('#include <vector>\nint main(){std::vector<int> v(3);return v[0];}\n')
rc = 0
for s in ('address,undefined', 'thread'):
    rc |= subprocess.call(['g++', '-std=c++17', '-fsanitize=' + s, src, '-o', os.path.join(d, 'a')])
import shutil
shutil.rmtree(d)
print('toolchain ok' if rc == 0 else 'toolchain broken')
sys.exit(rc)
