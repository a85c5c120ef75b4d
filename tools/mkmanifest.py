#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl")]
NOTE = ("Every execution of the real library that is validated satisfies the TLA+ contract (TLC checks each recorded trace event by event); "
        "the algorithm models of the property are checked exhaustively for the constants of their configurations. Programs and schedules are sampled "
        "(random walk, PCT, freezing; sequentially consistent or simulated x86-TSO; C11 happens-before clocks), so absence of violations holds for the explored executions. "
        "Trusts the controlled runtime rt/ (scheduler, store buffers, libc stand-ins), clang's ThreadSanitizer instrumentation and TLC.")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                 "technique": "TLA+ contract and algorithm models checked with TLC; TLC trace validation of the real code under a controlled scheduler",
                 "level": "model_checking", "level_note": NOTE} for i in ids],
     "not_applicable": [],
     "notes": "No hooks in /repo are needed: the checks compile /repo's sources with clang -fsanitize=thread and link them with rt/ instead of libtsan."}
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)
