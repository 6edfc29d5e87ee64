#!/usr/bin/env python3
"""Runs a replay file again: replay.py FILE. Exit 1 when it fails as recorded."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, vbuild

doc = json.load(open(sys.argv[1]))
job = doc["job"]
vbuild.build(job["target"])
d, _ = engine.judge(job)
print(json.dumps(engine.fields(d, ("status", "kind", "msg", "hash", "cycles", "commits")), indent=1))
if d["status"] == "error":
    sys.exit(2)
if d["status"] != "violation":
    print("does not fail on this tree")
    sys.exit(0)
same = d["kind"] == doc["expect"]["kind"] and d.get("hash") == doc["expect"]["hash"]
print("fails exactly as recorded" if same else "fails differently")
print("VIOLATION property=%s replay=%s" % (doc["property"], os.path.abspath(sys.argv[1])))
sys.exit(1)
