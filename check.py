#!/usr/bin/env python3
"""check.py C01 --tier quick|thorough      (run with python3-vt)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
from vf import run

if __name__ == "__main__":
    rc = run.main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
