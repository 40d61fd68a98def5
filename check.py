#!/usr/bin/env python3
"""check.py ID [--replay FILE] [--cases N] ...: run the check of one property."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import pbt
pid = sys.argv.pop(1)
mod = [f[:-3] for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")) if f.lower().startswith(pid.lower() + "_")][0]
sys.exit(pbt.main(importlib.import_module("checks." + mod).PROP))
