#!/usr/bin/env python3
"""setup_cmd: everything the checks need is installed and importable (nothing is built)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "/repo")
import z3
s = z3.Solver(); x = z3.Int("x"); s.add(x > 2, x < 4)
assert s.check() == z3.sat and s.model()[x].as_long() == 3
import vf.lang, vf.engine, vf.machine, vf.run
print("ok", z3.get_version_string())
