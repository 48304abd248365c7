#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans of the harness."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "X25": "a pure check of constructor arguments: no concurrency, time, I/O or fault the property depends on, "
           "so there is no schedule or fault sequence for a simulator to search",
    "X26": "pure single-threaded forwarding of a call and its parameters, mostly a matter of overload resolution "
           "at compile time: no schedule, clock or fault can influence it",
}
NOTE = ("Seeded search over thread schedules, timing and injected faults of generated programs running the real "
        "library under a deterministic simulator; finds violations, proves nothing beyond the executions explored. "
        "Trusted: simulator semantics of mutexes, conditions, semaphores, clocks and sockets, sequentially "
        "consistent interleavings (weak memory only through happens-before race detection), harness oracles.")
TECH = "deterministic simulation with fault injection (seeded schedule and fault search, history oracles, replay)"
plans = set(re.findall(r'\{ "(X\d+)"', open(os.path.join(V, "harness/plan.cpp")).read()))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans:
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s quick" % i,
            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH, "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its workload family is not finished")})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/xbuild.py --all",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the simulator interposes threads, clocks, sockets, "
              "heap and memory accesses at link level (library calls and -fsanitize=thread instrumentation)",
              "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "See DESIGN.md. Repairs of genuine defects are the 'fix:' commits in /repo, listed in known_findings.txt.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
