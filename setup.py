"""Nothing is built: checks interpret the source of /repo directly.  This only
verifies that the interpreter, z3 and the code under test can be loaded."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import symvm.boot  # noqa
import z3
from symvm import loader, vm

vm.VM("conc", loader.Loader())
print("z3", z3.get_version_string(), "python", sys.version.split()[0])
