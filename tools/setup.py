#!/usr/bin/env python3-vt
"""setup: nothing to build; checks that the tools the framework needs are there and that every spec loads."""
import os, sys, shutil, py_compile, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
for t in ('clang++', 'g++'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
import z3, cvc5
from hv import runner, unit
runner.load_specs()
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('%d units loaded, z3 %s' % (len(unit.UNITS), z3.get_version_string()))
