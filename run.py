import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core
core.setup_env()
import importlib
if sys.argv[1] == "--selftest":
    import numpy, scipy, AMAT.vehicle, AMAT.planet
    print("ok", numpy.__version__, scipy.__version__)
    sys.exit(0)
mod = importlib.import_module("mc." + sys.argv[1].lower())
sys.exit(core.main(mod, sys.argv[2:]))
