#!/usr/bin/env python3
"""Checks that the compilers the harnesses need are here. Harnesses are built by each check, from /repo's tree."""
import os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
d = tempfile.mkdtemp(dir=os.path.join(ROOT, 'build'))
src = os.path.join(d, 't.cpp')
open(src, 'w').write('#include <cstdio>\nint main(){ puts("ok"); }\n')
ok = True
for cmd in (['clang++', '-fsanitize=address,undefined'], ['g++', '-O2']):
    r = subprocess.run(cmd + [src, '-o', src + '.exe']).returncode or subprocess.run([src + '.exe']).returncode
    ok = ok and r == 0
shutil.rmtree(d)
sys.exit(0 if ok else 1)
