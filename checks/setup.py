#!/usr/bin/env python3
"""setup_cmd: builds the exporter from the committed source (checks build it on demand as well)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import build
print(build.irx())
