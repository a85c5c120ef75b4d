#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [quick|thorough]

1. builds the library of /repo's working tree with the controlled runtime (rt/)
2. checks the TLA+ models of the property exhaustively with TLC (spec/)
3. executes generated programs under generated schedules on the real code and records traces
4. validates the recorded traces with TLC against the contract spec/Lace.tla
A rejected trace is executed again; if the execution repeats, the property is violated on this tree."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); SPEC = f"{HERE}/spec"
sys.path.insert(0, f"{HERE}/rt"); sys.path.insert(0, HERE)
import build
import models as mdl
from plan import PLAN
from models import MODELS, GUIDES
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()
def log(*a): print(f"[{time.time()-T0:6.1f}]", *a, flush=True)
class Broken(Exception): pass

def tlc(module, cfg, d, workers=2, mem="3g", env=None, timeout=600, args=()):
    os.makedirs(d, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d, "-workers", str(workers), "-config", cfg, *args, module]
    try: return subprocess.run(cmd, capture_output=True, text=True, env=dict(os.environ, **(env or {})), timeout=timeout, cwd=d).stdout
    except subprocess.TimeoutExpired: raise Broken(f"TLC did not finish: {module} {cfg}")

def numbers(o):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
    return (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)

# ---------------------------------------------------------------- trace validation
def validate(traces, d, workers=2):
    """list of booleans (accepted) and the numbers of TLC; traces: list of JSON lines"""
    os.makedirs(d, exist_ok=True)
    acc = [None] * len(traces); gen = dist = 0
    todo = [list(range(len(traces)))]
    k = 0
    while todo:
        idx = todo.pop()
        if not idx: continue
        k += 1
        f = f"{d}/t{k}.ndjson"
        open(f, "w").writelines(traces[i] for i in idx)
        o = tlc(f"{SPEC}/LaceTrace.tla", f"{SPEC}/LaceTrace.cfg", f"{d}/m{k}", workers, env={"TRACES": f})
        shutil.rmtree(f"{d}/m{k}", ignore_errors=True); os.remove(f)
        ok = {int(x) for x in re.findall(r'<<"ACCEPT", (\d+)', o)}
        for j in ok: acc[idx[j - 1]] = True
        g = numbers(o); gen += g[0]; dist += g[1]
        if "Model checking completed. No error has been found" in o:
            for j, i in enumerate(idx):
                if acc[i] is None: acc[i] = False
        elif len(idx) == 1:
            if "evaluat" in o and "Error" in o: acc[idx[0]] = False     # the event is not even well formed in this state
            else: raise Broken("TLC failed:\n" + o[-2000:])
        else:                                                            # an evaluation error stops TLC: look at the rest separately
            rest = [i for i in idx if acc[i] is None]
            h = max(1, len(rest) // 2)
            todo += [rest[:h], rest[h:]]
    return acc, gen, dist

def parallel_validate(traces, d, jobs=4, workers=2):
    if not traces: return [], 0, 0
    n = min(jobs, max(1, len(traces) // 40))
    parts = [list(range(i, len(traces), n)) for i in range(n)]
    acc = [None] * len(traces); gen = dist = 0
    with cf.ThreadPoolExecutor(n) as ex:
        for p, (a, g, s) in zip(parts, ex.map(lambda q: validate([traces[i] for i in q[1]], f"{d}/p{q[0]}", workers), list(enumerate(parts)))):
            for i, x in zip(p, a): acc[i] = x
            gen += g; dist += s
    return acc, gen, dist

def explain(line):
    sys.path.insert(0, f"{HERE}/tools")
    import explain as ex
    try: return ex.explain(json.loads(line))[0]
    except Exception as e: return f"(no explanation: {e})"

# ---------------------------------------------------------------- exploration
def gargs(guides): return ["--guides", guides] if guides else []
def explore(jobs, secs, maxt, seed, d, guides):
    ps = []
    for i, (drv, fams, counts) in enumerate(jobs):
        out = f"{d}/x{i}.ndjson"
        if guides: fams = fams + ["guide"]
        p = subprocess.Popen([drv, "--family", ",".join(fams), "--seed", str(seed * 64 + i), "--secs", str(secs), "--max", str(maxt), "--counts", str(counts), "--out", out, *gargs(guides)],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        ps.append((p, out, drv, fams, counts))
    res = []
    for p, out, drv, fams, counts in ps:
        try: o, e = p.communicate(timeout=secs + 240)
        except subprocess.TimeoutExpired: p.kill(); raise Broken("exploration does not end")
        if p.returncode: raise Broken(f"exploration failed ({p.returncode}): {e[-500:]}")
        res.append((drv, fams, counts, json.loads(o), open(out).readlines()))
    return res

def guide_of(x, lines): return lines[(((int(x) * 0x9E3779B97F4A7C15) % 2**64) >> 33) % len(lines)]
def rerun(drv, line, counts, guides):
    t = json.loads(line); fam, x = t["id"].rsplit(":", 1)
    r = subprocess.run([drv, "--family", fam, "--exec", x, "--counts", str(counts), *gargs(guides)], capture_output=True, text=True, timeout=120)
    return r.stdout

KNOWN = f"{HERE}/known_findings.txt"
def known(prop):
    """open findings: lines 'finding: property=<id> signature=<regex> :: <what fails>'; fixed: lines suppress nothing"""
    r = []
    for l in open(KNOWN) if os.path.exists(KNOWN) else []:
        m = re.match(r"finding: property=(\S+) signature=(.*?) :: (.*)", l)
        if m and m[1] == prop: r.append((re.compile(m[2]), m[3]))
    return r

def violation(prop, line, drv, variant, counts, why, guides):
    os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
    t = json.loads(line)
    path = f"{HERE}/evidence/replay/{prop}-{t['id'].replace(':', '-')}.json"
    fam, x = t["id"].rsplit(":", 1)
    json.dump({"property": prop, "variant": variant, "family": fam, "exec": x, "counts": counts, "guide": guide_of(x, open(guides).read().splitlines()) if fam == "guide" else "", "trace": t, "why": why}, open(path, "w"))
    print(why, flush=True)
    print(f"replay with: python3 tools/replay.py {path}")
    return path

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]; thorough = tier == "thorough"
    secs = float(os.environ.get("LACE_SECS", 240 if thorough else plan.get("secs", 25))); maxt = 1500 if thorough else plan.get("max", 250)
    d = tempfile.mkdtemp(prefix=f"lace-{prop}-")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking"}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": {}, "exploration": {}}
    bad = []
    try:
        # ---- build
        variants = sorted({v for v, _ in plan["jobs"]})
        build.common(d)
        drv = {}
        with cf.ThreadPoolExecutor(8) as ex:
            for v, p in zip(variants, ex.map(lambda v: build.build(v, d), variants)): drv[v] = p
        log("built", ", ".join(variants))
        # ---- models
        models = [m for m in MODELS if prop in m["props"] and (thorough or m["tier"] == "quick") and "nomodels" not in os.environ.get("LACE_SKIP", "")]
        def run_model(m):
            t = time.time()
            ok, s, g, o = mdl.run(m, 8 if thorough else 2, "10g" if thorough else "2g", f"{d}/model-{m['name']}")
            if not ok: raise Broken(f"model {m['name']}:\n" + o[-3000:])
            log(f"model {m['name']}: {s} states, {g} transitions, {time.time()-t:.1f}s" + (" (fault found)" if m["expect"] == "violation" else ""))
            return m, g, s, round(time.time() - t, 1)
        # ---- behaviours of the contract that the real code is steered through
        def run_guides(m):
            g, o = mdl.guides(m, 600 if thorough else 120, seed, f"{d}/{m['name']}")
            if not g: raise Broken(f"behaviours of {m['name']}:\n" + o[-2000:])
            cov["guides"][m["name"]] = {"behaviours": len(g), "what": m["what"]}
            return g
        cov["guides"] = {}; guides = None; glines = []
        with cf.ThreadPoolExecutor(1 if thorough else 4) as ex:
            gl = [ex.submit(run_guides, m) for m in GUIDES.get(prop, [])]
            mr = ex.map(run_model, models)
            if gl:
                guides = f"{d}/guides"; glines = [l for g in gl for l in g.result()]
                open(guides, "w").write("\n".join(glines) + "\n"); log("contract behaviours to follow:", len(glines))
            for m, g, s, w in mr:
                cov["models"][m["name"]] = {"states": s, "transitions": g, "wall_s": w, "what": m["what"], "expected": m["expect"]}
                cov["states"] += s; cov["transitions"] += g
        # ---- exploration
        jobs = [(drv[v], fams, build.counts(v)) for v, fams in plan["jobs"]]
        res = explore(jobs, secs, maxt, seed, d, guides)
        tot = {"executions": 0, "distinct": 0, "events": 0, "steps": 0, "switches": 0, "suspicious": 0}
        for (v, fams), (_, _, _, st, _) in zip(plan["jobs"], res):
            tot["executions"] += st["execs"]
            for k in ("distinct", "events", "steps", "switches", "suspicious"): tot[k] += st[k]
        if guides:
            gt = {k: sum(st[k] for _, _, _, st, _ in res) for k in ("guided", "followed", "guide_events", "guide_events_followed")}
            cov["guided_replay"] = {"executions": gt["guided"], "followed_to_the_end": gt["followed"], "steps_prescribed": gt["guide_events"], "steps_followed": gt["guide_events_followed"],
                                    "behaviours": len(glines), "behaviours_followed_to_the_end_by_one_job": max(st["guides_followed"] for _, _, _, st, _ in res)}
            log("guided replay", cov["guided_replay"])
        tot["families"] = sorted({f"{v}: {f}" for v, fams in plan["jobs"] for f in fams})
        cov["exploration"] = tot
        log("explored", {k: tot[k] for k in ("executions", "distinct", "steps", "switches", "suspicious")})
        # ---- validation: suspicious traces first
        sus, rest = [], []
        for (v, fams), (dr, _, c, st, lines) in zip(plan["jobs"], res):
            for l in lines: (sus if '"sus":1' in l[:120] else rest).append((l, dr, v, c))
        sus.sort(key=lambda x: len(x[0]))
        def judge(items, jobs):
            a, g, s = parallel_validate([x[0] for x in items], f"{d}/val{len(bad)}", jobs)
            cov["states"] += s; cov["transitions"] += g; cov["traces_validated_against_impl"] += len(items)
            out = [x for x, ok in zip(items, a) if not ok]
            cov["rejected"] = cov.get("rejected", 0) + len(out)
            return out
        unstable = 0
        for items in (sus[:48], rest):
            if not items: continue
            for it in judge(items, 4):
                l2 = rerun(it[1], it[0], it[3], guides)            # the execution must repeat
                if json.loads(l2)["ev"] != json.loads(it[0])["ev"]:
                    a, _, _ = validate([l2], f"{d}/again{unstable}")
                    unstable += 1
                    if a[0]: continue
                    it = (l2, *it[1:])
                bad.append(it)
                if len(bad) >= 4: break
            if bad: break
        cov["rejections_that_did_not_repeat"] = unstable
        log("validated", cov["traces_validated_against_impl"], "traces; rejected", len(bad))
        good = [x for x in rest if len(x[0]) < 9000][:2]
        cov["samples"] = [{"variant": x[2], "trace": json.loads(x[0])} for x in (bad[:1] or good)]
        # ---- verdict
        rc = 0; unlisted = []
        kf = known(prop); seen = set()
        for it in bad:
            why = explain(it[0])
            hit = [k for k in kf if k[0].search(why)]
            if hit:
                if hit[0][1] not in seen: print(f"KNOWN-FINDING: property={prop} {hit[0][1]}"); seen.add(hit[0][1])
            else: unlisted.append((it, why))
        for k in kf:
            if k[1] not in seen: print(f"KNOWN-FINDING: property={prop} {k[1]} (not hit in this run)")
        if unlisted:
            it, why = unlisted[0]
            path = violation(prop, it[0], it[1], it[2], it[3], why, guides)
            print(f"VIOLATION property={prop} replay={path}", flush=True); rc = 1
        if rc == 0 and prop == "C02" and build.degraded:
            os.makedirs(f"{HERE}/evidence/replay", exist_ok=True); path = f"{HERE}/evidence/replay/C02-types.json"
            json.dump({"property": prop, "why": "tasks with some parameter types do not compile (they do with others): the generated code does not pass every argument as its own parameter", "compiler": build.degraded}, open(path, "w"))
            print(next(iter(build.degraded.values()))[:1500]); print(f"VIOLATION property=C02 replay={path}", flush=True); rc = 1; unlisted = [1]
        if rc == 0 and not thorough and tot["executions"] < 200: raise Broken("too few executions")
        ev["violations"] = len(unlisted)
    except (Broken, RuntimeError, OSError, subprocess.SubprocessError) as e:
        print(f"ERROR of the check: {e}", flush=True); rc = 2
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ev["coverage"] = cov; ev["wall_s"] = round(time.time() - T0, 1)
    ev["assumptions"] = ["traces are sequentially consistent or x86-TSO executions at the granularity of instrumented memory accesses",
                         "C11 happens-before clocks are computed on sequentially consistent executions", "model results hold for the constants of the configurations"]
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    json.dump(ev, open(f"{HERE}/evidence/{prop}.json", "w"), indent=1)
    log("exit", rc); sys.exit(rc)
main()
