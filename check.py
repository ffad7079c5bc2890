#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":     # same order of everything on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import harness  # noqa: E402
from sa.registry import REG  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod, fn, spec = REG[pid]
    m = importlib.import_module("sa.props." + mod)
    sys.exit(harness.run(pid, tier, getattr(m, fn), spec))


try:
    main()
except Exception as e:
    print("ANALYSIS-BROKEN property=%s: %r" % (sys.argv[1:2], e))
    sys.exit(3)
