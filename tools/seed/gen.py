#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in bugs_*.py (run from anywhere)."""
import os, sys, json, subprocess, shutil, glob, importlib.util
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
W = "/tmp/seedwt"
if not os.path.isdir(W):
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
subprocess.check_call(["git", "-C", W, "fetch", "-q"])
BUILD = {
 "lib": 'g++ -std=c++14 -O1 -I include -I _build/include -I "$d" "$d/demo.cpp" -o "$t/demo" -L _build/lib -lxdispatch -lpthread -ldl -Wl,-rpath,"$PWD/_build/lib"',
 "asan": 'mkdir "$t/xdispatch" && sed "/QT5/d" _build/include/xdispatch/config.h >"$t/xdispatch/config.h" && g++ -std=c++14 -O1 -g -fsanitize=address -fno-omit-frame-pointer -DXDISPATCH_MAKEDLL -I "$t" -I include -I _build/include -I "$d" "$d/demo.cpp" src/*.cpp src/naive/*.cpp -o "$t/demo" -lpthread -ldl',
 "tsan": 'mkdir "$t/xdispatch" && sed "/QT5/d" _build/include/xdispatch/config.h >"$t/xdispatch/config.h" && g++ -std=c++14 -O1 -g -fsanitize=thread -DXDISPATCH_MAKEDLL -I "$t" -I include -I _build/include -I "$d" "$d/demo.cpp" src/*.cpp src/naive/*.cpp -o "$t/demo" -lpthread -ldl',
 "qt": 'g++ -std=c++14 -O1 -fPIC -DBUILD_XDISPATCH2_BACKEND_QT5=1 -I include -I _build/include -I "$d" $(pkg-config --cflags Qt5Core) "$d/demo.cpp" -o "$t/demo" -L _build/lib -Wl,--no-as-needed -lxdispatch -lxdispatch_qt5 $(pkg-config --libs Qt5Core) -lpthread -ldl -Wl,-rpath,"$PWD/_build/lib"',
}
RUN = {"lib": 'timeout @T@ "$t/demo"', "asan": 'ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=1 timeout @T@ "$t/demo"',
       "tsan": 'TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout @T@ setarch -R "$t/demo"', "qt": 'QT_QPA_PLATFORM=offscreen timeout @T@ "$t/demo"'}
bugs = {}
for f in sorted(glob.glob(H + "/bugs_*.py")):
    ns = {}
    exec(compile(open(f).read(), f, "exec"), ns)
    bugs.update(ns["bugs"])
sel = sys.argv[1:] or list(bugs)
for i in sel:
    b = bugs[i]
    subprocess.check_call(["git", "-C", W, "reset", "-q", "--hard", "origin/HEAD"])
    for fn, old, new in b["edits"]:
        p = W + "/" + fn
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %d matches in %s of:\n%s" % (i, s.count(old), fn, old))
        open(p, "w").write(s.replace(old, new))
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    k = b.get("kind", "lib")
    sh = open(H + "/demo.sh.in").read().replace("@BUILD@", BUILD[k]).replace("@RUN@", b.get("pre", "") + RUN[k].replace("@T@", str(b.get("t", 100))))
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(b["demo"].lstrip())
    shutil.copy(H + "/d.h", d + "/d.h")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", i)
