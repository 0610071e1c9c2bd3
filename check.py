#!/usr/bin/env python3
"""python3 check.py <property id> [--thorough]   decides one property on the source tree at $SA_REPO (default /repo)"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import threading


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    from sa.report import Report
    R = Report(pid, tier)
    mod = importlib.import_module("checks." + pid.lower())
    with R.group("check"):
        mod.run(R)
    rc[0] = R.finish()


rc = [2]
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
sys.exit(rc[0])
