#!/usr/bin/env python3-vt
"""setup: check the tools and warm the bitcode cache (every check rebuilds what is missing)"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import build, props
import z3
print('z3', z3.get_version_string())
try:
    build.base()
    for s in sorted(set(j['spec'] for p in props.PROPS.values() for j in p['jobs'])):
        build.module(s)
except build.BuildError as e:
    print('warm-up build failed:', str(e)[-500:])
