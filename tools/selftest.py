"""setup_cmd: checks that the verifier's pieces import and that its soundness
self-tests pass.  Builds nothing."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vc import smt, terms, arrays, npmodel, interp, sym, conc, pyx  # noqa
import z3
s = z3.Solver(); x = z3.Real('x'); s.add(x > 0, x < 0)
assert s.check() == z3.unsat
print('selftest ok, z3', z3.get_version_string())
