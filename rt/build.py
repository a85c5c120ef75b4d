#!/usr/bin/env python3
"""Builds the driver for one variant of the library from /repo's working tree.
variant: <6|14>[-mmap][-tasks][-steals][-splits][-pie][-cpp][-gen][-noleap]   (e.g. 14-mmap)"""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LACE_REPO", "/repo")
OPTS = {"mmap": "LACE_USE_MMAP", "tasks": "LACE_COUNT_TASKS", "steals": "LACE_COUNT_STEALS", "splits": "LACE_COUNT_SPLITS", "pie": "LACE_PIE_TIMES"}
WEAK = ["-include", f"{HERE}/weak.h"]
SAN = ["-O1", "-g", "-fsanitize=thread", "-femulated-tls", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-w"]

degraded = {}   # variant -> what the compiler said about the full set of task types
def sh(*a, **k):
    r = subprocess.run(a, capture_output=True, text=True, **k)
    if r.returncode: raise RuntimeError(" ".join(a) + "\n" + r.stdout + r.stderr)
    return r.stdout

def counts(variant):
    p = variant.split("-")
    return (1 if "tasks" in p else 0) + (2 if "steals" in p else 0)

def common(out):
    """objects that do not depend on /repo"""
    o = []
    ps = []
    for f in ("vrt", "driver"):
        t = f"{out}/{f}.o"; o.append(t)
        if not os.path.exists(t): ps.append(subprocess.Popen(["clang++", "-std=c++17", "-O2", "-g", "-w", "-c", f"{HERE}/{f}.cc", "-o", t]))
    for p in ps:
        if p.wait(): raise RuntimeError("runtime does not compile")
    return o

def build(variant, out):
    """returns the path of the driver binary"""
    parts = variant.split("-")
    n = parts[0]
    d = f"{out}/{variant}"
    os.makedirs(d, exist_ok=True)
    src = f"{REPO}/src"
    hdr, lib = ("lace.h", "lace.c") if n == "6" else ("lace14.h", "lace14.c")
    on = {OPTS[p] for p in parts[1:] if p in OPTS}
    cfg, known = [], set()
    for l in open(f"{src}/lace_config.h.in"):
        m = re.match(r"\s*#\s*cmakedefine(01)?\s+(\w+)(.*)", l)
        if m:
            known.add(m[2])
            if m[1]: cfg.append(f"#define {m[2]} {1 if m[2] in on else 0}\n")
            else: cfg.append(f"#define {m[2]}{m[3]}\n" if m[2] in on else f"/* #undef {m[2]} */\n")
        else: cfg.append(l)
    open(f"{d}/lace_config.h", "w").writelines(cfg)
    inc = [f"-I{d}"]
    if "gen" in parts:      # header regenerated by the generator script
        g = subprocess.run(["bash", f"{src}/lace.sh", n], capture_output=True, text=True, cwd=d)
        open(f"{d}/{hdr}", "w").write(g.stdout)
    inc += [f"-I{src}"]
    defs = [f"-D{x}=1" for x in on if x not in known] + (["-DLACE_LEAP_RANDOM=0"] if "noleap" in parts else [])
    if "gen" in parts:      # the library next to the regenerated header
        open(f"{d}/lib.c", "w").write(open(f"{src}/{lib}").read()); libsrc = f"{d}/lib.c"
    else: libsrc = f"{src}/{lib}"
    cpp = "cpp" in parts
    def tasks(*mode):
        open(f"{d}/kinds.inc", "w").write(sh("python3", f"{HERE}/gen_kinds.py", n, *mode))
        return subprocess.Popen((["clang++", "-std=gnu++17", "-x", "c++", "-fpermissive"] if cpp else ["clang", "-std=gnu11", *WEAK]) + [*SAN, *defs, *inc, f"-I{HERE}", f'-DLACE_H="{hdr}"', "-c", f"{HERE}/tasks.c", "-o", f"{d}/tasks.o"], stderr=subprocess.PIPE, text=True)
    pl = subprocess.Popen(["clang", "-std=gnu11", *WEAK, *SAN, *defs, *inc, "-c", libsrc, "-o", f"{d}/lace.o"], stderr=subprocess.PIPE, text=True)
    pt = tasks()
    e = pl.communicate()[1]; et = pt.communicate()[1]
    if pl.returncode: raise RuntimeError("compilation failed:\n" + e[-3000:])
    if pt.returncode:       # some type of task does not compile: go on with types that convert into each other
        degraded[variant] = et[:3000]
        pt = tasks("plain"); e = pt.communicate()[1]
        if pt.returncode: raise RuntimeError("compilation failed:\n" + e[-3000:])
    for o in ("lace", "tasks"): sh("objcopy", f"--redefine-syms={HERE}/shims.txt", f"{d}/{o}.o")
    own = {l.split()[0] for l in open(f"{HERE}/shims.txt")}
    und = set(re.findall(r" U (\S+)", sh("nm", f"{d}/lace.o", f"{d}/tasks.o")))
    esc = sorted(u for u in und if re.match(r"(pthread_(mutex|cond|rwlock|barrier|spin)_(?!attr)|pthread_(create|join|timedjoin|clockjoin|tryjoin|kill|cancel)|sem_|thrd_|mtx_|cnd_|tss_|call_once|fork$|vfork$|clone$)", u))
    if esc: raise RuntimeError("the library calls functions the runtime does not control: " + " ".join(esc))
    # fences written as inline assembly are invisible to the runtime: then without store buffers
    asm = re.search(r"\t(mfence|sfence|lfence|lock |xchg .*\()", sh("objdump", "-d", "--no-show-raw-insn", f"{d}/lace.o", f"{d}/tasks.o"))
    open(f"{d}/cfg.c", "w").write(f"const int vrt_no_tso = {1 if asm else 0};\n"); sh("clang", "-c", f"{d}/cfg.c", "-o", f"{d}/cfg.o")
    sh("clang++", "-O1", *common(out), f"{d}/cfg.o", f"{d}/lace.o", f"{d}/tasks.o", "-lpthread", "-o", f"{d}/driver")
    return f"{d}/driver"

if __name__ == "__main__":
    os.makedirs(sys.argv[1], exist_ok=True)
    for v in sys.argv[2:]: print(build(v, sys.argv[1]))
