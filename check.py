#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property from the current source of /repo."""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analysis"))
sys.setrecursionlimit(20000)
import checklib

if __name__ == "__main__":
    prop = sys.argv[1]
    m = importlib.import_module("props." + prop.lower())
    sys.exit(checklib.main(prop, m.run, level=getattr(m, "LEVEL", "other"), explanation=(m.__doc__ or "").strip()))
