#!/usr/bin/env python3
"""survey.py FAMILY FOCUS[,FOCUS..] RUNS [START]: classes of failures over many seeds."""
import sys, os, re, subprocess, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import xbuild, check
exe = xbuild.build(os.environ.get("FLAVOUR", "naive"))
fam, foci, runs = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
start = int(sys.argv[4]) if len(sys.argv) > 4 else 1
for focus in foci:
    per = (runs + 7) // 8
    ps = [subprocess.Popen([exe, "one", fam, focus, str(start + i * per), "0", str(per)],
                           stdout=open("/tmp/survey.%d.%d" % (os.getpid(), i), "w")) for i in range(8)]
    groups = collections.defaultdict(list)
    ok = 0
    times = []
    for i, p in enumerate(ps):
        p.wait()
        name = "/tmp/survey.%d.%d" % (os.getpid(), i)
        text = open(name).read()
        os.unlink(name)
        seed = None
        msg = None
        for line in text.splitlines():
            m = re.match(r"seed (\d+) (\S+): (\S+) .* ([\d.]+) ms$", line)
            if m:
                seed, verdict = int(m.group(1)), m.group(3)
                times.append(float(m.group(4)))
                if verdict == "ok":
                    ok += 1
                msg = None
            elif line.startswith("  sites"):
                sites = tuple(line.split()[1:])
                m = re.sub(r"(?<!X)\d+[\d.]*", "#", re.sub(r"\bX(\d)", r"X\1", msg))
                m = re.sub(r"(?<![X\d])\d+", "#", msg)
                if "race" in verdict or "memory" in verdict or "crash" in verdict:
                    k = (verdict, m[:60], sites[:2] if verdict == "race" else sites[1:5])
                else:
                    k = (verdict, m[:130], ())
                k = k if k[0] != "budget" else (k[0], "", ())
                groups[k].append((seed, msg, sites))
            elif line.startswith("  "):
                msg = line.strip() if msg is None else msg
            else:
                msg = (msg or "") + line
    print("== %s/%s: %d runs ok, %.1f ms avg, %.1f max" % (fam, focus, ok, sum(times) / max(1, len(times)), max(times or [0])))
    for k, v in sorted(groups.items(), key=lambda x: -len(x[1])):
        print("%4d %s: %s   (seed %d)" % (len(v), k[0], v[0][1][:250], v[0][0]))
        if k[0] in ("race", "memory", "crash", "misuse", "deadlock", "stuck", "budget"):
            for l in check.symbolise(exe, [hex(int(a, 16) - 1) if int(a, 16) else a for a in v[0][2]])[:6]:
                print("        ", re.sub(r"<[^<>]*>", "<>", re.sub(r"<[^<>]*>", "<>", re.sub(r"<[^<>]*>", "<>", l)))[:170])
