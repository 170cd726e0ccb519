"""setup_cmd: nothing to build; check that the interpreter and z3 are usable."""
import sys, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from pyvc import core
import z3
s = z3.Solver(); x = z3.Int('x'); s.add(x > 2, x < 2)
assert s.check() == z3.unsat
print('z3', z3.get_version_string(), 'ok')
