#!/usr/bin/env python3
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import check
pid = sys.argv[1]
mod = importlib.import_module('pv.props.' + pid.lower())
try:
    rc = check.main(pid, mod.run)
except SystemExit:
    raise
except Exception:
    import traceback
    traceback.print_exc()
    rc = 4
sys.exit(rc)
