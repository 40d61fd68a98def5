#!/usr/bin/env python3
"""setup_cmd: show that the program under test builds (each check builds again what it needs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import common, execlib
print(common.build("o1"))
print(execlib.build())
