"""Nothing is compiled: checks that the interpreter, z3 and gpkit load."""
import os
import subprocess
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import z3    # noqa
s = z3.Solver()
x = z3.Real("x")
s.add(x*x < 0)
assert s.check() == z3.unsat
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from pyvc import loader  # noqa
loader.load(instrumented=False)
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
print("ok: z3", z3.get_version_string(), "python", sys.version.split()[0])
