#!/usr/bin/env python3
"""check.py <property>: decides one property for the working tree of /repo"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib"), HERE]
import core
from table import CHECKS
if __name__ == "__main__":
    p = sys.argv[1]
    m = importlib.import_module(CHECKS[p][0])
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(core.main(p, getattr(m, p.lower()), CHECKS[p][1]))
