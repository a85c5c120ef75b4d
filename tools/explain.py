#!/usr/bin/env python3
"""Explains why the specification rejects a recorded trace: explain.py FILE [index or id]"""
import json, os, re, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
def explain(tr, n=25, state=True):
    d = tempfile.mkdtemp()
    json.dump(tr, open(f"{d}/t.nd", "w"))
    e = dict(os.environ, TRACES=f"{d}/t.nd", VERBOSE="1")
    o = subprocess.run(["java", "-Xmx4g", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d, "-workers", "1", "-config", f"{SPEC}/LaceTrace.cfg", f"{SPEC}/LaceTrace.tla"], capture_output=True, text=True, env=e).stdout
    shutil.rmtree(d)
    out = []
    if "ACCEPT" in o: return "accepted", None
    st = [(int(m[1]), m.start()) for m in re.finditer(r'<<\s*"STEP",\s*1,\s*(\d+)', o)]
    last = max([p for p, _ in st], default=0)
    for i in range(max(0, last - n), min(len(tr["ev"]), last + 3)):
        e = tr["ev"][i]
        out.append(("-->" if i == last else "   ") + f"{i+1:5d} t{e[1]:<3d} {e[0]:9s} {e[2:6]}" + (f" {e[6]}" if len(e) > 6 else ""))
    if state and st:
        s = o[max(st)[1]:]
        out.append(s[:6000])
    elif "rror" in o: out.append(o[-3000:])
    return "\n".join(out), last
if __name__ == "__main__":
    ts = [json.loads(l) for l in open(sys.argv[1])]
    k = sys.argv[2] if len(sys.argv) > 2 else "0"
    t = [x for x in ts if x["id"] == k][0] if ":" in k else ts[int(k)]
    print(t["id"], t["env"]); print(explain(t)[0])
