#!/usr/bin/env python3
"""plant.py ID [--no-tests]: confirms a planted bug in a scratch clone of /repo:
builds, demo passes without / fails with the patch, stable tests pass with it."""
import os, subprocess, sys, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "/tmp/pl"
R = B + "/repo"
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def build():
    if not os.path.exists(R + "/_build/build.ninja"):
        r = sh(["cmake", "-S", "/opt/vp/cmake", "-B", R + "/_build", "-G", "Ninja", "-DREPO_DIR=" + R,
                "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++"])
        if r.returncode:
            print(r.stdout[-2000:]); return False
    r = sh(["ninja", "-C", R + "/_build"])
    if r.returncode:
        print(r.stdout[-3000:])
    return r.returncode == 0
def demo(d, n):
    out = []
    for _ in range(n):
        try:
            r = sh(["bash", d + "/demo.sh"], cwd=R, timeout=300)
            out.append(r.returncode)
            last = r.stdout[-300:].strip()
        except subprocess.TimeoutExpired:
            out.append("timeout"); last = ""
    return out, last
def tests():
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    racy = r"cxx_dispatch_(after_global|after_serial|group|group_lambda)$"
    heavy = r"benchmark|priority_(custom|global)$"
    bad = {}
    env = dict(os.environ, QT_QPA_PLATFORM="offscreen")
    for j, sel in (("4", ["-E", heavy + "|" + racy]), ("1", ["-R", heavy])):
        r = sh(["ctest", "--test-dir", R + "/_build", "--timeout", "20", "-j" + j] + sel, env=env)
        for m in re.finditer(r"Test\s+#\d+: (\S+) \.*\s*(\S.*?)\s+[\d.]+ sec", r.stdout):
            if "Passed" not in m.group(2):
                bad[m.group(1)] = m.group(2)
        total = len(re.findall(r"Test\s+#\d+:", r.stdout))
        if not total:
            bad["none"] = r.stdout[-500:]
    return bad
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if not os.path.isdir(R):
        os.makedirs(B, exist_ok=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
    for i in ids:
        d = V + "/seeded/" + i
        subprocess.check_call(["git", "-C", R, "fetch", "-q"])
        subprocess.check_call(["git", "-C", R, "reset", "-q", "--hard", "origin/HEAD"])
        if not build(): return 1
        c, cl = demo(d, 2)
        subprocess.check_call(["git", "-C", R, "apply", d + "/patch.diff"])
        ok = build()
        p, pl = demo(d, 2) if ok else ([], "")
        bad = tests() if ok and "--no-tests" not in sys.argv else None
        subprocess.check_call(["git", "-C", R, "reset", "-q", "--hard", "origin/HEAD"])
        good = c == [0, 0] and all(x != 0 and x != "timeout" for x in p) and p and not bad
        print("%s %s clean=%s [%s] patched=%s [%s] tests=%s" % (i, "GOOD" if good else "BAD", c, cl[-80:], p, pl[-120:], bad), flush=True)
main()
