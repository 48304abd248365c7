#!/usr/bin/env python3
"""Decides one property by seeded simulation.  usage: check.py PROPERTY [quick|thorough]
   check.py --replay FILE [-v]    re-executes a replay file"""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import xbuild

VERIF = xbuild.VERIF
OUT = os.environ.get("XDSIM_OUT", VERIF)
QUICK_S = {"default": 45}
THOROUGH_S = {"default": 600}


def symbolise(exe, addrs):
    if not addrs:
        return []
    p = subprocess.run(["addr2line", "-Cfpe", exe] + addrs, stdout=subprocess.PIPE, text=True)
    return [re.sub(r"\(discriminator \d+\)", "", l).replace(xbuild.REPO + "/", "").strip()
            for l in p.stdout.splitlines()]


def annotate(exe, path):
    """appends readable code locations to a replay file"""
    text = open(path).read()
    m = re.search(r"^sites(.*)$", text, re.M)
    addrs = m.group(1).split() if m else []
    # call sites: return addresses
    locs = symbolise(exe, [hex(int(a, 16) - 1) if int(a, 16) else a for a in addrs])
    with open(path, "a") as f:
        for l in locs:
            f.write("# at %s\n" % l)
    return locs


def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(X\d+) match=\"(.*?)\" (.*)", line)
            if m:
                res.append(m.groups())
    return res


def flavours_of(prop):
    """builds of the library a property is decided with, each gets its share of the time"""
    if prop in ("X23", "X24"):
        return ["qt5"]
    if prop == "X27":
        return ["naive", "qt5"]
    return ["naive"]


def merge(a, b):
    """adds the statistics of one search to those of another"""
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: merge(a[k], b[k]) if k in a and k in b else a.get(k, b.get(k)) for k in list(a) + [k for k in b if k not in a]}
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a + b
    return a


def replay(path, verbose):
    text = open(path).read()
    prop = re.search(r"^property (\S+)", text, re.M).group(1)
    m = re.search(r"^# flavour (\S+)", text, re.M)
    exe = xbuild.build(m.group(1) if m else flavours_of(prop)[0])
    p = subprocess.run([exe, "replay", path] + (["v"] if verbose else []))
    return p.returncode


def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2], "-v" in sys.argv))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    table = THOROUGH_S if tier == "thorough" else QUICK_S
    secs = float(os.environ.get("XDSIM_SECONDS", table.get(prop, table["default"])))
    t0 = time.time()
    flavours = flavours_of(prop)
    exes = [xbuild.build(f) for f in flavours]
    tb = time.time() - t0
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, "%s-%s-%d.replay" % (prop, tier, seed))
    stats = os.path.join(xbuild.BUILD, "stats-%s.json" % prop)
    known = [k for k in known_findings() if k[0] == prop]
    st = None
    rc = 0
    violations = 0
    for flavour, exe in zip(flavours, exes):
        for f in (rfile, stats):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [exe, "check", prop, "seed=%d" % seed, "seconds=%g" % (secs / len(flavours)),
               "workers=%d" % (os.cpu_count() or 4), "replay=" + rfile, "stats=" + stats,
               "minimise=%d" % (60 if tier == "quick" else 240)] + ["known=" + k[1] for k in known]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
        sys.stdout.write(p.stdout)
        if not os.path.exists(stats):
            print("error: simulator did not finish (status %d)" % p.returncode)
            sys.exit(3)
        one = json.load(open(stats))
        if st:
            threads = max(st["max_threads"], one["max_threads"])
            st = merge(st, one)
            st["max_threads"] = threads
        else:
            st = one
        for k in known:
            if k[1] in one["known"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        if p.returncode == 1:
            with open(rfile, "a") as f:
                f.write("# flavour %s\n" % flavour)
            locs = annotate(exe, rfile)
            for l in locs:
                print("  at", l)
            # reproduce in a fresh process
            q = subprocess.run([exe, "replay", rfile], stdout=subprocess.PIPE, text=True)
            print("replay in a fresh process:", q.stdout.strip().splitlines()[-1])
            if q.returncode == 1:
                print("VIOLATION property=%s replay=%s" % (prop, rfile))
                violations = 1
                rc = 1
            else:
                print("error: replay file does not reproduce exactly")
                rc = 3
        elif p.returncode != 0:
            rc = 3
        if rc:
            break
    write_evidence(prop, tier, seed, st, secs, time.time() - t0, tb, violations)
    sys.exit(rc)


def write_evidence(prop, tier, seed, st, secs, wall, tb, violations):
    hours = max(st["wall_s"], 0.001) / 3600.0
    qt = "qt5" in flavours_of(prop)
    cov = {
        "evaluations": st["runs"],
        "distinct_nontrivial": st["distinct"],
        "rule": "one evaluation = one simulated execution of a generated program under a seeded "
                "schedule and fault sequence with all oracles active; distinct = different hashes "
                "over the cross-thread order of all synchronisation operations (locks, conditions, "
                "semaphores, atomics, thread creation, sockets, sleeps); nontrivial = at least two threads and "
                "two context switches; duplicates of an interleaving are not counted",
        "samples": st["samples"],
        "runs_per_hour": round(st["runs"] / hours),
        "seeds_per_hour": round(st["runs"] / hours),
        "simulated_seconds": round(st["vtime_s"], 1),
        "scheduling_points": st["steps"],
        "context_switches": st["switches"],
        "memory_accesses_checked_for_races": st["accesses_race_checked"],
        "max_threads_in_a_run": st["max_threads"],
        "faults_injected": {k: v for k, v in st["faults"].items() if k not in ("switch", "choice")},
        "runs_with_faults": st["runs_with_faults"],
        "search_strategies": st["strategies"],
        "workloads": st["workloads"],
        "rare_conditions_reached": st["probes"],
        "verdicts": st["verdicts"],
        "determinism": {"runs_executed_twice": st["determinism_runs"],
                        "different_histories": st["determinism_mismatches"]},
        "inconclusive_runs": st["inconclusive"],
        "failures_of_other_properties_seen": st["failures_of_other_properties"],
        "synchronisation_site_pairs": st["sync_site_pairs"],
        "real_components": ["all of xdispatch2 (src/*.cpp, src/naive/*.cpp%s)" %
                            (", src/qt5/*.cpp" if qt else ""),
                            "libstdc++ thread/mutex/condition_variable/shared_ptr"] +
                           (["Qt5Core event loop, QThread, QThreadPool"] if qt else []),
        "stubbed_components": ["kernel thread scheduler, futexes/pthread mutexes, conditions and semaphores",
                               "clocks, sleeps, select/poll", "sockets (in-memory)", "malloc/free",
                               "sysconf processor count, sched/setpriority/prctl"],
        "build_s": round(tb, 1),
        "notes": st["notes"][:6],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "sequentially consistent interleavings at synchronisation operations and shared accesses; "
            "weak memory effects are covered only as data races by happens-before analysis",
            "bounded programs (up to 160 instructions, 8 queues, 3 client threads) and bounded search time",
            "allocation failure and thread creation failure are out of scope: the library terminates by design",
        ],
        "wall_s": round(wall, 1),
        "violations": violations,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
