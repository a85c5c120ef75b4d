#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there and that the framework builds; nothing is kept."""
import os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{H}/rt")
import build
for t in ("clang", "clang++", "objcopy", "java", "bash"):
    if not shutil.which(t): sys.exit(f"missing tool: {t}")
for j in ("tla2tools.jar", "CommunityModules-deps.jar"):
    if not os.path.exists(f"/opt/veriftools/tla/{j}"): sys.exit(f"missing {j}")
d = tempfile.mkdtemp(prefix="lace-setup-")
try:
    p = build.build("6", d)
    print(subprocess.run([p, "--family", "fj", "--n", "20", "--max", "1", "--out", f"{d}/t"], capture_output=True, text=True, check=True).stdout)
finally: shutil.rmtree(d, ignore_errors=True)
