#!/usr/bin/env python3
"""Repeats the execution of a VIOLATION on /repo's working tree: replay.py FILE"""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{HERE}/rt"); sys.path.insert(0, f"{HERE}/tools")
import build, explain
r = json.load(open(sys.argv[1])); d = tempfile.mkdtemp()
drv = build.build(r["variant"], d)
if r.get("guide"): open(f"{d}/g", "w").write(r["guide"] + "\n")
o = subprocess.run([drv, *(["--guides", f"{d}/g"] if r.get("guide") else []), "--family", r["family"], "--exec", r["exec"], "--counts", str(r["counts"])], capture_output=True, text=True).stdout
t = json.loads(o); print("variant", r["variant"], "execution", t["id"], "same events as recorded:", t["ev"] == r["trace"]["ev"])
print(explain.explain(t)[0]); shutil.rmtree(d)
