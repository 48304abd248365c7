#!/usr/bin/env python3
"""mut.py PATCH PROP[,PROP..] [SECONDS]: runs checks against a patched scratch copy of /repo.
With -R before PATCH the patch is reverted instead (e.g. a fix)."""
import os, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
rev = args[0] == "-R"
if rev:
    args.pop(0)
patch, props = os.path.abspath(args[0]), args[1].split(",")
secs = args[2] if len(args) > 2 else "45"
base = os.environ.get("MUTDIR", "/tmp/mut")
repo = base + "/repo"
if not os.path.isdir(repo):
    os.makedirs(base, exist_ok=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", repo])
subprocess.check_call(["git", "-C", repo, "fetch", "-q"])
subprocess.check_call(["git", "-C", repo, "reset", "-q", "--hard", "origin/HEAD"])
subprocess.check_call(["git", "-C", repo, "apply"] + (["-R", "--3way"] if rev else []) + [patch])
env = dict(os.environ, XDSIM_REPO=repo, XDSIM_BUILD=base + "/build", XDSIM_SECONDS=secs, XDSIM_OUT=base)
os.makedirs(base + "/build", exist_ok=True)
for p in props:
    r = subprocess.run([sys.executable, V + "/tools/check.py", p], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    lines = [l for l in r.stdout.splitlines() if l.strip()]
    print("%s %s: exit %d" % (os.path.basename(os.path.dirname(patch)) or patch, p, r.returncode))
    for l in lines[-12:]:
        print("    " + l[:260])
