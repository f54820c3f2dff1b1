"""Checks that the interpreters and libraries the framework needs are there."""
import subprocess
import sys

code = ("import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); sys.path.insert(0, '.');"
        "import z3, numpy, pandas; import symx.runner; s = z3.Solver(); x = z3.Real('x'); s.add(x * x == 2, x > 0);"
        "assert s.check() == z3.sat; print('ok: z3', z3.get_version_string(), 'numpy', numpy.__version__)")
sys.exit(subprocess.call(['/opt/venv/bin/python', '-B', '-c', code]))
