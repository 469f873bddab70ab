#!/usr/bin/env python3
"""Checks that the tools are there and that the specification parses; warms the Go build cache."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vj.common import *

for m in sorted(f for f in os.listdir(SPEC) if f.endswith('.tla')):
    p = subprocess.run(['java', '-cp', TLA_JARS, 'tla2sany.SANY', m], cwd=SPEC, capture_output=True, text=True)
    if p.returncode or 'Semantic errors' in p.stdout or 'error' in p.stdout.lower():
        sys.exit('%s: %s' % (m, p.stdout[-2000:]))
    print('parsed', m)
p = go(['version'], '/')
if p.returncode:
    sys.exit(p.stderr)
print(p.stdout.strip())
