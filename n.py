#!/usr/bin/env python3-vt
"""n.py SPEC FN CFG [SECONDS]: run a harness natively on generated inputs"""
import sys, subprocess, tempfile
sys.path.insert(0, '/verif')
from vf import build
e = build.native(sys.argv[1])
d = tempfile.mkdtemp(prefix='vf')
p = subprocess.run([e, d, sys.argv[2], sys.argv[3], 'random', '1', sys.argv[4] if len(sys.argv) > 4 else '5'], capture_output=True, text=True, errors='replace')
print(p.returncode, (p.stdout + p.stderr)[-1500:])
subprocess.run(['rm', '-rf', d])
