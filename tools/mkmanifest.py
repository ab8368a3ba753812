#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(f"{V}/checks.json")); props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NOTE = ("Seeded search, not enumeration: it shows the absence of violations on the simulated runs of this invocation only. Real library code is run; trusted are the simulator (fiber scheduler, "
        "simulated MPI, pthreads, files and allocator), the reference models of the workloads, and sequentially consistent execution between preemption points, which are memory accesses.")
m = {"version": 1, "setup_cmd": "python3 build.py", "hooks": {"guard": "none (no source hooks are needed: the seams are link-time wrapping, compiler instrumentation and a simulated mpi.h)", "enable": "build.py compiles /repo/src with -fsanitize=thread instrumentation bound to the simulator and --wrap for system calls", "source_commits": []}, "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C["checks"]:
        c = C["checks"][i]
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough", "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection: " + c["technique"], "level": "exploration", "level_note": c["note"] + " " + NOTE})
    else: m["not_applicable"].append({"property": i, "reason": C["not_applicable"].get(i, "check under construction")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
