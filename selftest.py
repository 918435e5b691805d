#!/usr/bin/env python3-vt
"""setup: make sure the tools the checks need are here"""
import subprocess, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vx'))
import z3, build
for c in (['clang++', '--version'], [build.LLVM + 'llvm-link', '--version'], [build.LLVM + 'llvm-nm', '--version'], ['c++filt', '--version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
x = z3.Real('x'); s = z3.Solver(); s.add(x * x < 0); assert str(s.check()) == 'unsat'
print('ok', z3.get_version_string())
