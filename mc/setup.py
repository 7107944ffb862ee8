#!/usr/bin/env python3
"""Offline set-up: checks the tools and pre-compiles the library and harness objects from /repo (the checks rebuild what changed)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from props import PROPS
for p in sorted(PROPS):
    exe, err = check.build('/repo', p)
    if not exe: print(err[-3000:]); sys.exit(1)
    os.remove(exe)
print('ready')
