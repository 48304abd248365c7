#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree.

Every translation unit of the library that belongs to the naive backend (and the
Qt5 backend for the second binary) is compiled with -fsanitize=thread, whose
hooks are provided by the simulator runtime instead of libtsan.
Objects are cached by the content of everything they were built from."""
import concurrent.futures, glob, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XDSIM_REPO", "/repo")
BUILD = os.environ.get("XDSIM_BUILD", os.path.join(VERIF, "build"))
CONFIG_ON = {
    "naive": ["BUILD_XDISPATCH2_BACKEND_NAIVE", "XDISPATCH2_HAVE_PRCTL",
              "XDISPATCH2_HAVE_SETPRIORITY", "XDISPATCH2_HAVE_SYSCONF",
              "XDISPATCH2_HAVE_SYSCONF_SC_NPROCESSORS_ONLN", "XDISPATCH2_HAVE_SOCKETPAIR",
              "XDISPATCH2_HAVE_DLSYM", "XDISPATCH2_HAVE_IMMINTRIN_H", "XDISPATCH2_BUILD_SHARED"],
}
CONFIG_ON["qt5"] = CONFIG_ON["naive"] + ["BUILD_XDISPATCH2_BACKEND_QT5"]
CXX = "g++"


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def gen_config(flavour, inc):
    on = CONFIG_ON[flavour]
    res = []
    for line in open(os.path.join(REPO, "config.h.in")):
        m = re.match(r"#cmakedefine\s+(\w+)(.*)", line)
        if m:
            line = "#define %s%s\n" % (m.group(1), m.group(2)) if m.group(1) in on \
                else "/* #undef %s */\n" % m.group(1)
        res.append(line)
    write_if_changed(os.path.join(inc, "xdispatch/config.h"), "".join(res))


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build(flavour="naive", verbose=False):
    out = os.path.join(BUILD, flavour)
    inc = os.path.join(out, "include")
    os.makedirs(out, exist_ok=True)
    gen_config(flavour, inc)
    headers = []
    for base in ("include", "src"):
        for root, _, files in os.walk(os.path.join(REPO, base)):
            headers += [os.path.join(root, f) for f in files
                        if not f.endswith((".cpp", ".mm", ".m", ".c"))]
    headers.append(os.path.join(inc, "xdispatch/config.h"))
    hh = tree_hash(headers)
    vh = tree_hash(glob.glob(VERIF + "/harness/*.h") + [VERIF + "/sim/sim.h"])

    lib = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/naive/*.cpp"))
    har = [VERIF + "/harness/" + f for f in ("h.cpp", "qkit.cpp", "driver.cpp")]
    har += sorted(glob.glob(VERIF + "/harness/fam_*.cpp"))
    har.append(VERIF + "/harness/plan.cpp")
    defs = []
    incs = ["-I", os.path.join(inc), "-I", REPO + "/include", "-I", REPO + "/src"]
    sysinc = []
    link = []
    extra_src = []
    if flavour == "qt5":
        lib += [f for f in sorted(glob.glob(REPO + "/src/qt5/*.cpp")) if "fallback" not in f]
        pk = subprocess.run(["pkg-config", "--cflags", "Qt5Core"], stdout=subprocess.PIPE,
                            text=True).stdout.split()
        sysinc = pk
        link = subprocess.run(["pkg-config", "--libs", "Qt5Core"], stdout=subprocess.PIPE,
                              text=True).stdout.split() + ["-rdynamic"]
        defs = ["-DXDSIM_QT", "-DQT_NO_KEYWORDS"]
        har += sorted(glob.glob(VERIF + "/harness/qt_*.cpp"))
        for h in sorted(glob.glob(REPO + "/src/qt5/*.h") + glob.glob(REPO + "/include/xdispatch/*qt*.h")):
            if "Q_OBJECT" in open(h).read():
                cpp = os.path.join(out, "moc_" + os.path.basename(h)[:-2] + ".cpp")
                sh(["/usr/lib/qt5/bin/moc"] + defs + incs + [h, "-o", cpp])
                extra_src.append(cpp)
    common = [CXX, "-g1", "-fsanitize=thread", "-Wno-tsan", "-fPIC", "-fno-omit-frame-pointer",
              "-w", "-include", "stdexcept"] + defs + incs + sysinc
    libflags = common + ["-std=c++14", "-O1", "-DXDISPATCH_MAKEDLL"]
    harflags = common + ["-std=c++17", "-O1"]

    jobs = []

    def obj(src, flags, extra):
        key = hashlib.sha256((" ".join(flags) + hh + extra +
                              hashlib.sha256(open(src, "rb").read()).hexdigest()).encode()).hexdigest()[:24]
        o = os.path.join(out, os.path.basename(src) + "." + key + ".o")
        if not os.path.exists(o):
            jobs.append((flags + ["-c", src, "-o", o + ".tmp"], o))
        return o

    objs = [obj(s, libflags, "") for s in lib + extra_src]
    hobjs = [obj(s, harflags, vh) for s in har]
    simkey = tree_hash([VERIF + "/sim/sim.cpp", VERIF + "/sim/sim.h"])[:24]
    libsim = os.path.join(out, "libsim-%s.so" % simkey)
    if not os.path.exists(libsim):
        jobs.append(([CXX, "-std=c++17", "-O2", "-g1", "-fPIC", "-shared", "-fno-exceptions",
                      "-fno-rtti", "-fvisibility=hidden", "-fno-builtin-malloc", "-w",
                      "-Wl,-Bsymbolic", "-Wl,-soname," + os.path.basename(libsim),
                      VERIF + "/sim/sim.cpp", "-o", libsim + ".tmp", "-ldl", "-lpthread"], libsim))

    def one(job):
        sh(job[0])
        os.replace(job[1] + ".tmp", job[1])

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        # long jobs first
        list(ex.map(one, sorted(jobs, key=lambda j: "harness" not in j[0][-3])))
    allkey = hashlib.sha256("".join(sorted(objs + hobjs + [libsim])).encode()).hexdigest()[:24]
    exe = os.path.join(out, "xdsim-" + allkey)
    if not os.path.exists(exe):
        sh([CXX, "-no-pie", "-o", exe + ".tmp", "-Wl,--no-as-needed", libsim,
            "-Wl,-rpath," + out, "-Wl,-z,now"] + hobjs + objs + link + ["-ldl", "-lpthread"])
        os.replace(exe + ".tmp", exe)
        keep = set(objs + hobjs + [libsim, exe])
        if not os.environ.get("XDSIM_KEEP"):
            for f in os.listdir(out):
                p = os.path.join(out, f)
                if f.endswith((".o", ".so")) or f.startswith("xdsim-"):
                    if p not in keep:
                        os.unlink(p)
    return exe


FLAVOURS = ["naive", "qt5"]

if __name__ == "__main__":
    if "--all" in sys.argv:
        for f in FLAVOURS:
            print(build(f))
        sys.exit(0)
    print(build(sys.argv[1] if len(sys.argv) > 1 else "naive"))
