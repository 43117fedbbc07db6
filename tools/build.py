#!/usr/bin/env python3
"""Build the instrumented NUClear objects from /repo's working tree and a driver against them.

Output goes to /verif/build/<content hash>/, so an unchanged tree is built once and a changed tree always rebuilds.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CXX = "g++"
CXXFLAGS = ["-std=c++14", "-O1", "-g1", "-fsanitize=thread", "-w", "-pthread"]
JOBS = 8


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash(only=lambda f: True):
    h = hashlib.sha256()
    h.update(" ".join(CXXFLAGS).encode())
    for f in filter(only, sources()):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def build(driver, defs=(), extra_sim=()):
    """Returns the path of the driver executable."""
    broot = os.path.join(VERIF, "build")
    os.makedirs(broot, exist_ok=True)
    lock = open(os.path.join(broot, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    th = tree_hash()
    root = os.path.join(broot, th)
    inc = os.path.join(root, "inc")
    os.makedirs(inc, exist_ok=True)
    os.utime(root)
    for d in sorted((d for d in os.listdir(broot) if len(d) == 16 and d != th), key=lambda d: os.path.getmtime(os.path.join(broot, d)))[:-3]:
        shutil.rmtree(os.path.join(broot, d), ignore_errors=True)
    with open(os.path.join(REPO, "src", "nuclear.in")) as f:
        umb = f.read().replace("${nuclear_include_base_directory}", "")
    with open(os.path.join(inc, "nuclear"), "w") as f:
        f.write(umb)
    # an object depends on its source and on every header
    hh = tree_hash(only=lambda f: not f.endswith(".cpp"))
    jobs = []
    objs = []
    for s in sources():
        if not s.endswith(".cpp"):
            continue
        with open(s, "rb") as fh:
            o = os.path.join(broot, "o-" + hashlib.sha256((hh + s).encode() + fh.read()).hexdigest()[:20] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((o, [CXX] + CXXFLAGS + ["-I" + os.path.join(REPO, "src"), "-I" + inc, "-c", s, "-o", o + ".tmp"]))
    dsrc = os.path.join(VERIF, "drivers", driver + ".cpp")
    sims = [os.path.join(VERIF, "sim", x + ".cpp") for x in ("vpsim",) + tuple(extra_sim)]
    shdrs = [os.path.join(VERIF, "sim", x) for x in sorted(os.listdir(os.path.join(VERIF, "sim"))) if x.endswith(".hpp")]
    dh = hashlib.sha256()
    ddir = os.path.join(VERIF, "drivers")
    hdrs = [os.path.join(ddir, x) for x in sorted(os.listdir(ddir)) if x.endswith(".hpp")]
    for f in [dsrc] + shdrs + sims + hdrs:
        dh.update(open(f, "rb").read())
    dh.update(" ".join(defs).encode())
    tag = dh.hexdigest()[:12]
    exe = os.path.join(root, driver + "-" + tag)
    do = os.path.join(broot, "o-" + hashlib.sha256((hh + driver + tag).encode()).hexdigest()[:20] + ".o")
    if not os.path.exists(do):
        jobs.append((do, [CXX] + CXXFLAGS + list(defs) + ["-I" + os.path.join(REPO, "src"), "-I" + inc, "-c", dsrc, "-o", do + ".tmp"]))
    sobjs = []
    for s in sims:
        so = os.path.join(broot, "sim-" + hashlib.sha256(b"".join(open(x, "rb").read() for x in [s] + shdrs)).hexdigest()[:12] + ".o")
        sobjs.append(so)
        if not os.path.exists(so):
            jobs.append((so, [CXX, "-std=c++17", "-O2", "-g1", "-w", "-pthread", "-c", s, "-o", so + ".tmp"]))

    def one(j):
        run(j[1])
        os.replace(j[0] + ".tmp", j[0])

    jobs.sort(key=lambda j: 0 if j[0] == do else 1)
    for o in objs + sobjs + [do]:
        if os.path.exists(o):
            os.utime(o)
    old = sorted((os.path.join(broot, o) for o in os.listdir(broot) if o.startswith("o-")), key=os.path.getmtime)[:-400]
    for o in old:
        os.unlink(o)
    if jobs:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, jobs))
    if not os.path.exists(exe):
        run([CXX, "-o", exe + ".tmp", do] + objs + sobjs + ["-pthread", "-ldl", "-rdynamic"])
        os.replace(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1]))
