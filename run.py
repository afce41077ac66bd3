#!/usr/bin/env python3-vt
"""run.py C01 [quick|thorough] [--replay file] [--case substring]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

if __name__ == "__main__":
    from symx import runner
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    sys.stdout.flush()
    rc = runner.main(prop, mod, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
