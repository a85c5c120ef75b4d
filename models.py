#!/usr/bin/env python3
"""The configurations of the TLA+ models of the implementation's algorithms (spec/) and how they are checked.

  models.py list                     all configurations
  models.py run NAME.. [-w WORKERS]  run TLC on some (or 'quick', 'thorough', 'all')

Each entry: the properties it belongs to, tier, constants, what is checked.  expect = "violation": the entry contains a
fault (constant Bug) and TLC has to find it; these runs show that the invariants are not vacuous."""
import json, os, re, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__)); SPEC = f"{HERE}/spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MODELS = []
def add(name, module, props, tier, what, consts, spec="Spec", inv="", prop="", expect="ok", constraint="", timeout=800, args=(), view=""):
    MODELS.append(dict(name=name, module=module, props=props.split(), tier=tier, what=what, consts=consts, spec=spec, inv=inv, prop=prop, expect=expect, constraint=constraint, timeout=timeout, args=list(args), view=view))
def cfg(m):
    def val(v): return ("TRUE" if v else "FALSE") if isinstance(v, bool) else str(v) if isinstance(v, int) else v if v[:1] in "{<" else f'"{v}"'
    o = [f"SPECIFICATION {m['spec']}", "CONSTANTS"]
    for k, v in m["consts"].items(): o.append(f"  {k} <- {v[2:]}" if isinstance(v, str) and v.startswith("<-") else f"  {k} = {val(v)}")
    if m["inv"]: o.append("INVARIANTS " + m["inv"])
    if m["prop"]: o.append("PROPERTIES " + m["prop"])
    if m["view"]: o.append("VIEW " + m["view"])
    if m["constraint"]: o.append("CONSTRAINT " + m["constraint"])
    return "\n".join(o) + "\n"

# ------------------------------------------------------------------ Barrier: lace_barrier, lace_barrier_destroy
def barrier(name, tier, W, Gens, Bug="none", **k):
    add(name, "Barrier", "C10 C08 C12", tier, f"lace_barrier, {W} workers, {Gens} generations" + ("" if Bug == "none" else f", fault {Bug}"),
        dict(W=W, Gens=Gens, Bug=Bug), spec="LiveSpec", inv="EnteredAll NoUse", prop="Ends", expect="ok" if Bug == "none" else "violation", **k)
barrier("barrier3", "quick", 3, 3)
barrier("barrier4", "thorough", 4, 4)
barrier("barrier5", "thorough", 5, 3)
barrier("barrier-flipfirst", "quick", 3, 3, "flipfirst")

# ------------------------------------------------------------------ Frames: NEWFRAME, TOGETHER, external tasks
FI = "OneFrame Entered Alive Complete Once SamePlace"
def frames(name, tier, W, NFs, TGs, Spawns, Exts, Bug="none", live=False, props="C07 C08 C09 C14", **k):
    add(name, "Frames", props, tier, f"frames protocol: {W} workers, {NFs} new frames, {TGs} togethers, {Spawns} spawns, {Exts} external tasks" + ("" if Bug == "none" else f", fault {Bug}") + (", liveness" if live else ""),
        dict(W=W, NFs=NFs, TGs=TGs, Spawns=Spawns, Exts=Exts, Bug=Bug), spec="LiveSpec" if live else "Spec", inv=FI, prop="Ends" if live else "", expect="ok" if Bug == "none" else "violation", **k)
frames("frames-2-live", "quick", 2, 1, 1, 0, 1, live=True)
frames("frames-2", "thorough", 2, 1, 1, 1, 1)
frames("frames-3", "thorough", 3, 1, 1, 0, 1)
frames("frames-2-two", "thorough", 2, 2, 0, 1, 1)
frames("frames-2-tgtg", "thorough", 2, 0, 2, 1, 1)
frames("frames-3-compete", "thorough", 3, 2, 1, 2, 0)
frames("frames-3-compete-live", "thorough", 3, 1, 1, 1, 0, live=True)
frames("frames-spin", "quick", 2, 1, 1, 0, 1, "spin", True, props="C09 C14")
frames("frames-nofinish", "quick", 2, 1, 1, 0, 1, "nofinish", props="C07 C08 C14")
frames("frames-noexitbar", "quick", 2, 1, 1, 0, 1, "noexitbar", props="C08")

# ------------------------------------------------------------------ Session: start, stop, run, runex, suspend, resume
SI = "Submitted ExclusiveAlone Suspended Freed Woken Counts"
def session(name, tier, W, X, Ops, Sessions, Kinds, Intr=False, Bug="none", live=False, props="C05 C06 C11 C12 C14", **k):
    add(name, "MCSession", props, tier, f"sessions: {W} workers, {X} outside threads with {Ops} operations of {Kinds}, {Sessions} sessions" + (", interrupted waits" if Intr else "") + ("" if Bug == "none" else f", fault {Bug}") + (", liveness" if live else ""),
        dict(W=W, X=X, Ops="<-Ops" + Ops, Sessions=Sessions, Kinds="{" + ", ".join(f'"{k}"' for k in Kinds.split()) + "}", Intr=Intr, Bug=Bug), spec="LiveSpec" if live else "Spec", inv=SI, prop="Ends" if live else "", expect="ok" if Bug == "none" else "violation", **k)
ALL = "run runex sus res"
session("session-2x2", "quick", 2, 2, "11", 1, ALL)
session("session-life", "quick", 2, 1, "2", 2, "run sus res", props="C12 C11 C14")
session("session-live", "thorough", 1, 2, "11", 1, "run runex", live=True, props="C05 C06 C14")
session("session-live1", "quick", 2, 1, "1", 1, ALL, live=True, props="C05 C11 C12 C14")
session("session-live-sus", "thorough", 2, 1, "2", 2, "run sus res", live=True, props="C05 C11 C12 C14")
session("session-intr", "thorough", 2, 2, "11", 1, ALL, True)
session("session-3w", "thorough", 3, 2, "11", 1, ALL)
session("session-2x3", "thorough", 1, 3, "111", 1, ALL)
session("session-2x2b", "thorough", 2, 2, "21", 1, ALL)
session("session-sus", "thorough", 2, 2, "22", 1, "run sus res", props="C05 C11 C12 C14")
session("session-life3", "thorough", 2, 2, "11", 2, ALL)
session("session-quits", "quick", 2, 1, "1", 2, "run", Bug="quits", props="C12")
session("session-susnowait", "quick", 2, 1, "3", 1, "run sus res", Bug="susnowait", props="C11")
session("session-susorder", "thorough", 2, 2, "22", 1, "run sus res", Bug="susorder", props="C11")
session("session-exnores", "quick", 1, 1, "2", 1, "runex sus", Bug="exnores", props="C11")
session("session-exif", "quick", 2, 2, "21", 1, "run runex", Bug="exif", props="C06")
session("session-eintr", "quick", 1, 1, "1", 1, "run", True, Bug="eintr", props="C05")
session("session-signal", "quick", 1, 3, "111", 1, "run runex", Bug="signal", props="C06 C14")
session("session-exttake", "quick", 2, 1, "1", 1, "run", Bug="exttake", props="C05")
session("session-stopearly", "quick", 2, 1, "1", 1, "run", Bug="stopearly", props="C12")

# ------------------------------------------------------------------ SplitDeque: the work-stealing algorithm on x86-TSO
DI = "Coherent Once Dropped Content HeadVisible AllDone NoWaiting"
def deque(name, tier, W, Cap, Tasks, Spawns, Frames=0, Drop=False, Share=False, Leap=True, Bug="none", inv=DI, prop="", live=False, props="C01 C02 C03 C04 C14 C15 C16 C18", **k):
    add(name, "MCSplitDeque", props, tier, f"split deque on TSO: {W} workers, deques of {Cap}, {Tasks} tasks (tree {Spawns}), {Frames} frames" + (", drop" if Drop else "") + (", make-all-shared" if Share else "") + (", leapfrogging" if Leap else "") + ("" if Bug == "none" else f", fault {Bug}") + (", liveness" if live else ""),
        dict(W=W, Cap=Cap, MaxTasks=Tasks, MaxFrames=Frames, WithDrop=Drop, WithShare=Share, Leap=Leap, Bug=Bug, Spawns="<-Sp" + Spawns), spec="LiveSpec" if live else "Spec", inv=inv, prop=prop, expect="ok" if Bug == "none" else "violation", **k)
deque("deque-flat", "quick", 2, 3, 3, "3", Drop=True)
deque("deque-tree", "thorough", 2, 3, 4, "31", Drop=True)
deque("deque-share", "thorough", 2, 3, 4, "31", Share=True)
deque("deque-4", "thorough", 2, 4, 5, "4")
deque("deque-noleap3", "thorough", 3, 3, 2, "2", Leap=False)
deque("deque-leap3", "thorough", 3, 2, 2, "11")
deque("deque-frame", "quick", 2, 3, 3, "21", Frames=1)
deque("deque-frame4", "thorough", 2, 3, 4, "21", Frames=1)
deque("deque-grow", "quick", 2, 3, 3, "21", inv="Once", prop="GrowShares", props="C15")
deque("deque-live", "thorough", 2, 3, 3, "21", live=True, prop="Terminates", props="C14 C15")
for b, p, kw in (("early", "C01 C02", {}), ("growround", "C15", dict(inv="Once", prop="GrowShares")), ("dropshared", "C04", dict(Drop=True)), ("nofence", "C01", {}), ("norecheck", "C01", dict(Share=True)),
                 ("castail", "C01", {}), ("framepub", "C07 C15", dict(Frames=1))):
    deque("deque-bug-" + b, "quick", 2, 3, 4, "3" if b == "norecheck" else "31", Bug=b, props=p, **kw)

# ------------------------------------------------------------------ MCLace: the contract itself, with a most general client
def setof(s): return "{" + ", ".join(f'"{x}"' for x in s.split()) + "}"
def client(name, tier, props, W, Cap, MaxDef, MaxOps, MaxInst, Scr, TaskOps, ExtOps, Sessions=1, emit=False, **k):
    m = dict(name=name, module="MCLace", props=props.split(), tier=tier, what=f"contract with the most general client: {W} workers, deques of {Cap}, {MaxDef} definitions of up to {MaxOps} operations of {TaskOps}, {MaxInst} tasks, outside threads {Scr} with {ExtOps}, {Sessions} sessions",
             consts=dict(W=W, Cap=Cap, MaxDef=MaxDef, MaxOps=MaxOps, MaxInst=MaxInst, Scr="<-Scr" + Scr, TaskOps=setof(TaskOps), ExtOps=setof(ExtOps), Sessions=Sessions, Emit=emit),
             spec="MCSpec", inv="OnceAtATime NotGone Alone OneActive AllCopies Fits", prop="", expect="ok", constraint="", timeout=800, args=[], view="View")
    m.update(k)
    return m
MODELS += [
    client("client-fj", "quick", "C01 C02 C03 C04", 2, 20, 3, 2, 4, "1", "SPAWN SYNC DROP", "RUN"),
    client("client-fj5", "thorough", "C01 C02 C03 C04", 2, 20, 3, 3, 5, "1", "SPAWN SYNC DROP CALL", "RUN"),
    client("client-fj3", "thorough", "C01 C02 C03 C04", 3, 20, 3, 2, 5, "1", "SPAWN SYNC DROP", "RUN"),
    client("client-frames", "quick", "C07 C08", 2, 20, 3, 2, 4, "1", "SPAWN NF TG", "RUN"),
    client("client-ext", "quick", "C05 C06 C09", 2, 20, 2, 1, 3, "11", "NF", "RUN RUNEX NF"),
    client("client-exttg", "thorough", "C05 C06 C08 C09", 2, 20, 2, 2, 4, "11", "SPAWN TG", "RUN RUNEX TG"),
    client("client-bar", "quick", "C10", 2, 20, 2, 2, 5, "1", "SPAWN SYNC BAR", "TG"),
    client("client-sus", "quick", "C11 C12", 2, 20, 1, 1, 3, "21", "YIELD", "RUN SUS"),
    client("client-life", "thorough", "C11 C12", 2, 20, 1, 1, 3, "2", "YIELD", "RUN SUS", 2),
    client("client-cap", "quick", "C13", 2, 1, 3, 2, 5, "1", "SPAWN SYNC DROP", "RUN"),
    client("client-insp", "quick", "C20", 2, 20, 2, 2, 3, "1", "SPAWN SYNC INSP", "RUN"),
]
# simulated behaviours the real code is steered through: (properties, configurations)
FJ = client("guide-fj", "", "", 2, 20, 4, 4, 8, "1", "SPAWN SYNC DROP CALL YIELD", "RUN", emit=True)
FJ3 = client("guide-fj3", "", "", 3, 20, 4, 4, 8, "2", "SPAWN SYNC DROP CALLCB STEAL", "RUN RUNEX", emit=True)
MIX = client("guide-mix", "", "", 2, 20, 3, 3, 6, "221", "SPAWN SYNC DROP NF TG RUN YIELD", "RUN RUNEX NF TG SUS", emit=True)
MIX1 = client("guide-mix1", "", "", 3, 20, 4, 3, 8, "2", "SPAWN SYNC DROP NF TG CALL YIELD", "RUN RUNEX NF TG", emit=True)
EXT = client("guide-ext", "", "", 2, 20, 2, 2, 6, "221", "SPAWN SYNC YIELD", "RUN RUNEX", emit=True)
EXTNF = client("guide-extnf", "", "", 2, 20, 3, 2, 6, "21", "SPAWN NF TG YIELD RUN", "RUN RUNEX NF TG", emit=True)
NFTG = client("guide-frames", "", "", 3, 20, 4, 3, 7, "1", "SPAWN SYNC NF TG YIELD", "RUN", emit=True)
BARG = client("guide-bar", "", "", 3, 20, 2, 4, 8, "1", "SPAWN SYNC BAR", "TG", emit=True)
SUSG = client("guide-sus", "", "", 2, 20, 2, 2, 5, "221", "SPAWN YIELD", "RUN RUNEX SUS", emit=True)
LIFE = client("guide-life", "", "", 2, 20, 2, 2, 6, "3", "SPAWN SYNC", "RUN NF SUS", 2, emit=True)
CAPG = client("guide-cap", "", "", 2, 2, 3, 4, 7, "1", "SPAWN SYNC DROP", "RUN", emit=True)
INSPG = client("guide-insp", "", "", 2, 20, 3, 4, 6, "1", "SPAWN SYNC DROP INSP", "RUN", emit=True)
GUIDES = {"C01": [FJ, FJ3], "C02": [MIX1], "C03": [FJ, MIX1], "C04": [FJ, MIX1], "C05": [EXT, MIX], "C06": [EXT, EXTNF], "C07": [NFTG, EXTNF], "C08": [NFTG, MIX1], "C09": [EXTNF, NFTG], "C10": [BARG],
          "C11": [SUSG, MIX], "C12": [LIFE, SUSG], "C13": [CAPG], "C14": [MIX, NFTG], "C15": [FJ], "C17": [MIX1], "C18": [FJ3, CAPG], "C20": [INSPG]}
def guides(m, num, seed, d):
    """behaviours of the contract as lines for the driver's family 'guide'"""
    f = f"{d}/{m['name']}.cfg"; os.makedirs(d, exist_ok=True); open(f, "w").write(cfg(m))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx2g", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", f"{d}/m-{m['name']}", "-workers", "1", "-simulate", f"num={num}", "-depth", "400", "-deadlock", "-seed", str(seed), "-config", f, f"{SPEC}/MCLace.tla"]
    o = subprocess.run(cmd, capture_output=True, text=True, timeout=600, cwd=d).stdout
    shutil.rmtree(f"{d}/m-{m['name']}", ignore_errors=True)
    if "is violated" in o or "Error:" in o: return None, o
    r = []
    for l in o.splitlines():
        if not l.startswith('"GUIDE '): continue
        g = json.loads(json.loads(l)[6:]); t = [g["maxinst"], g["dq"], len(g["prog"])]
        for p in g["prog"] + [None] + g["scr"]:
            if p is None: t.append(len(g["scr"])); continue
            t.append(len(p))
            for q in p: t += [q["k"], q["d"]]
        t.append(len(g["ev"]))
        for e in g["ev"]: t += e
        r.append(" ".join(map(str, t)))
    return r, o

def select(names):
    r = [m for m in MODELS if m["name"] in names or m["tier"] in names or "all" in names or any(n.endswith("*") and m["name"].startswith(n[:-1]) for n in names)]
    return r
def run(m, workers=4, mem="6g", d=None):
    """(ok, states, transitions, output)"""
    own = d is None; d = d or tempfile.mkdtemp(prefix="model-")
    os.makedirs(d, exist_ok=True)
    f = f"{d}/{m['name']}.cfg"; open(f, "w").write(cfg(m))
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", f"{d}/m-{m['name']}", "-workers", str(workers), "-config", f, *m["args"], f"{SPEC}/{m['module']}.tla"]
    try: o = subprocess.run(cmd, capture_output=True, text=True, timeout=m["timeout"], cwd=d).stdout
    except subprocess.TimeoutExpired as e: o = "TIMEOUT\n" + (e.stdout or b"").decode()[-3000:]
    shutil.rmtree(d if own else f"{d}/m-{m['name']}", ignore_errors=True)
    n = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", o)
    g, s = (int(n[-1][0].replace(",", "")), int(n[-1][1].replace(",", ""))) if n else (0, 0)
    if m["expect"] == "violation": ok = bool(re.search(r"is violated|was violated|Deadlock reached|evaluates to|properties were violated", o))
    else: ok = "Model checking completed. No error has been found" in o
    return ok, s, g, o
if __name__ == "__main__":
    a = sys.argv[1:]; w = 4
    if "-w" in a: i = a.index("-w"); w = int(a[i + 1]); del a[i:i + 2]
    v = "-v" in a
    if a[0] == "list":
        for m in MODELS: print(f"{m['name']:24} {m['tier']:9} {m['expect']:9} {' '.join(m['props'])}: {m['what']}")
    else:
        bad = 0
        for m in select(a[1:]):
            t = time.time(); ok, s, g, o = run(m, w)
            print(f"{'ok  ' if ok else 'FAIL'} {m['name']:24} {s:>9} states {g:>9} transitions {time.time()-t:6.1f}s", flush=True)
            if not ok or v: print(o if v else o[-2500:])
            bad += not ok
        sys.exit(bad > 0)
