#!/bin/bash
# Builds every harness any check needs, once; the checks then rebuild incrementally.
cd "$(dirname "$0")/.."
python3 - <<'P'
import subprocess, sys
sys.path.insert(0, 'tools')
from parts import PARTS
by = {}
for ps in PARTS.values():
    for p in ps:
        by.setdefault(p['flavor'], set()).add(p['target'])
for f, t in by.items():
    r = subprocess.run(['bash', 'tools/build.sh', f] + sorted(t))
    if r.returncode:
        sys.exit(r.returncode)
P
