"""Checks that what the checks need is there."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from pyvc import core, interp, loops, models
s = z3.Solver(); x = z3.Int('x'); s.add(x > 0, x < 1)
assert s.check() == z3.unsat
subprocess.run(['cvc5', '--version'], check=True, stdout=subprocess.DEVNULL)
subprocess.run([os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python'), '-B', '-c', 'import sys; sys.path.insert(0, "/repo"); import records'],
               check=True)
print('ready')
