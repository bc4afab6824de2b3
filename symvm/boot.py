"""Make z3 importable from the interpreter that has numpy, sklearn, ortools."""
import glob
import sys

for p in sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")):
    if p not in sys.path:
        sys.path.append(p)
