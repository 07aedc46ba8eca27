#!/usr/bin/env python3
"""setup: nothing is kept between runs, every check builds from /repo; this verifies that the tools are there"""
import shutil, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ('g++-10', 'python3') if not shutil.which(t)]
if missing:
    print('missing: ' + ' '.join(missing)); sys.exit(1)
for d in ('build', 'out', 'evidence'):
    os.makedirs(os.path.join(V, d), exist_ok=True)
print('ok')
