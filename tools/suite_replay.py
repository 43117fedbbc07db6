"""From specification to code: TLC generates behaviours of spec/SchedGen.tla, what the environment did in each becomes a
program for drivers/sched.cpp, which makes the real code see the same environment; what it did is checked with SchedTrace."""
import os
import random
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import vplib
from suite_sched import Sched

# name: reactions, default pool threads, nested emits, handle operations, emit modes
CONF = {
    "group": ([1, 3, 4, 5], 2, False, False, [0]),
    "order": ([1, 2, 30, 37], 2, False, False, [0]),
    "multi": ([4, 37, 42, 1], 3, False, False, [0]),
    "wide": ([5, 38, 1], 3, True, False, [0]),
    "prio": ([16, 17, 18, 19], 2, True, False, [0]),
    "pools": ([6, 7, 8, 20, 25], 2, True, False, [0]),
    "inline": ([9, 10, 11, 12, 31], 2, True, False, [0, 1]),
    "scope": ([35, 36, 43, 47], 2, True, False, [0, 1]),
    "buffer": ([13, 14, 39, 48], 2, True, False, [0]),
    "ctl": ([0, 1, 41, 9], 2, True, True, [0, 1]),
    "once": ([15, 40, 33, 34], 2, True, False, [0, 1]),
}
CFG = """SPECIFICATION GSpec
CONSTANTS
 Inst = {%s}
 DefThreads = %d
 Emitters = {10}
 Workers = {0, 1, 2, 3, 4, 5, 6, 7, 8}
 MaxM = %d
 MaxE = 100000
 Nest = %s
 Ctl = %s
 Modes = {%s}
 MaxA = %d
 Burst = %s
INVARIANT Shown
CHECK_DEADLOCK FALSE
"""


def behaviours(name, num, seed, burst, acts, msgs):
    inst, threads, nest, ctl, modes = CONF[name]
    d = os.path.join(vplib.scratch(), "gen-%s-%d" % (name, seed))
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, "gen.cfg")
    lst = lambda v: ", ".join(map(str, v))
    with open(cfg, "w") as f:
        f.write(CFG % (lst(inst), threads, msgs, str(nest).upper(), str(ctl).upper(), lst(modes), acts, str(burst).upper()))
    cmd = ["tlc", "-simulate", "num=%d" % num, "-depth", str(acts * 12), "-seed", str(seed), "-workers", "1", "-noGenerateSpecTE", "-metadir", d, "-config", cfg, "SchedGen.tla"]
    e = dict(os.environ, JAVA_TOOL_OPTIONS="-XX:TieredStopAtLevel=1 -XX:ParallelGCThreads=1")
    p = subprocess.run(cmd, cwd=vplib.SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    shutil.rmtree(d, ignore_errors=True)
    if "Error" in p.stdout.replace("-noGenerateSpecTE", ""):
        raise vplib.CheckError("TLC failed on SchedGen:\n" + p.stdout[-3000:])
    out, seen = [], set()
    for m in re.finditer(r'<<\s*"PROG",\s*(<<.*?>>)\s*>>\s*\n(?=<<\s*"PROG"|[A-Z]|$)', p.stdout, re.S):
        ops = tuple(tuple(int(x) for x in g.split(",")) for g in re.findall(r"<<([\d,\s-]+)>>", m[1]))
        if ops and ops not in seen:
            seen.add(ops)
            out.append(ops)
    return out


def program(name, ops, rng):
    inst, threads = CONF[name][:2]
    lines = ["prog %d %d %d 0" % (rng.randrange(1, 1 << 48), threads, rng.random() < 0.3), "install " + " ".join(map(str, inst))]
    phases, now, n = [], [], 0
    letter = lambda mode, k, n: "%s%d(v%d)" % ("ei"[mode], k, n)
    for o in ops:
        if o[0] == 5:
            if now:
                phases.append(now)
            now = []
        elif o[0] == 1:
            n += 1
            now.append(letter(o[1], o[2], n))
        elif o[0] == 2:
            n += 1
            now.append("C%d(%s)" % (o[1] * 64 + o[2], letter(o[3], o[4], n)))
        elif o[0] == 3:
            now.append("C%d(%s)" % (o[1] * 64 + o[2], "x0" if rng.random() < 0.1 else ""))
        elif o[0] == 4:
            now.append("%s%d" % ("dn"[o[2]], o[1]))
    if now:
        phases.append(now)
    return lines + ["phase " + " | ".join(p) for p in phases]


class Replay(Sched):
    """spec: [(configuration, quick count, thorough count)]"""

    def run(self, pid, tier, seed):
        exe = self.exe()
        res = vplib.Result()
        rng = random.Random("%s-%d-%s-replay" % (pid, seed, tier))
        jobs = []
        for name, q, t in self.spec:
            n = q if tier == "quick" else t
            while n > 0:
                part = min(n, 10 if tier == "quick" else 100)
                n -= part
                jobs.append((name, part, rng.randrange(1, 1 << 30), rng.random() < 0.4, 14 if tier == "quick" else rng.choice([14, 20, 26]), 6))
        with ThreadPoolExecutor(8) as ex:
            found = list(ex.map(lambda j: behaviours(*j), jobs))
        progs = []
        for j, b in zip(jobs, found):
            if not b:
                raise vplib.CheckError("TLC generated no behaviour of " + j[0])
            progs += [program(j[0], ops, rng) for ops in b]
        self.check_file(exe, progs, pid, res, "replay")
        res.notes["behaviours generated from the specification"] = len(progs)
        return res
