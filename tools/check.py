#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
import specs

if __name__ == "__main__":
    pid = sys.argv[1]
    if pid not in specs.SPECS:
        print("no check for", pid)
        sys.exit(2)
    try:
        sys.exit(engine.decide(pid, specs.SPECS[pid]))
    except engine.CheckError as e:
        print("error:", e)
        sys.exit(2)
