"""Random programs run by drivers/sched.cpp under the controlled scheduler, checked against spec/Sched.tla."""
import hashlib
import json
import os
import random
import subprocess

import build
import gen_sched
import schedtrace
import vplib


def run_driver(exe, args, timeout=850):
    p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise vplib.CheckError("%s ended with %d:\n%s" % (os.path.basename(exe), p.returncode, p.stdout[-2000:]))


def read_runs(fn, n):
    runs = {}
    for l in open(fn):
        d = json.loads(l)
        runs[d["i"]] = d
    if len(runs) != n:
        raise vplib.CheckError("%d of %d runs recorded" % (len(runs), n))
    return [runs[i] for i in range(n)]


class Sched:
    """spec: [(profile, quick count, thorough count)], labels: the clauses which decide the property."""

    driver = "sched"

    def __init__(self, spec, labels):
        self.spec = spec
        self.labels = labels

    def exe(self):
        return build.build(self.driver)

    def relevant(self, label):
        return label in ("CRASH", "HANG") or label.startswith("SPEC") or any(label.startswith(x) for x in self.labels)

    def check_file(self, exe, progs, pid, res, tag):
        d = vplib.scratch()
        pf, of = os.path.join(d, tag + ".progs"), os.path.join(d, tag + ".runs")
        with open(pf, "w") as f:
            for p in progs:
                f.write("\n".join(p) + "\n")
        run_driver(exe, [pf, of, "8"])
        runs = read_runs(of, len(progs))
        # a run that took too long for the clock on the wall is tried again on its own
        for i, r in enumerate(runs):
            if r["end"] == "hang":
                of2 = os.path.join(d, tag + ".again")
                run_driver(exe, [pf, of2, "1", str(i)])
                r2 = read_runs(of2, 1)[0]
                r2["i"] = i
                runs[i] = r2
        conv = [schedtrace.convert(i, progs[i], r) for i, r in enumerate(runs)]
        rej, gen, dist = vplib.tlc_traces("SchedTrace", conv)
        res.states += dist
        res.transitions += gen - len(conv)
        res.traces += len(conv)
        res.notes["events"] = res.notes.get("events", 0) + sum(len(c["ev"]) for c in conv)
        ends = res.notes.setdefault("endings", {})
        for r in runs:
            ends[r["end"]] = ends.get(r["end"], 0) + 1
        for i in (0, len(progs) // 2):
            if len(res.samples) < 4:
                res.samples.append(dict(program=progs[i], events=[" ".join(str(v) for v in e.values()) for e in runs[i]["ev"]][:60]))
        seen = set()
        for i, idx, label in rej:
            if self.relevant(label) and label not in seen:
                seen.add(label)
                name = hashlib.sha1(("\n".join(progs[i])).encode()).hexdigest()[:10]
                replay = vplib.write_replay(pid, name, dict(kind="sched", program=progs[i], label=label, at=idx, end=runs[i]["end"], trace=runs[i]["ev"]))
                res.violations.append(dict(label=label, replay=replay, signature=label.split(":")[0] + "-" + name))

    def run(self, pid, tier, seed):
        exe = self.exe()
        res = vplib.Result()
        rng = random.Random("%s-%d-%s" % (pid, seed, tier))
        todo = []
        for prof, q, t in self.spec:
            for _ in range(q if tier == "quick" else t):
                todo.append(gen_sched.gen(rng, prof, rng.randrange(1, 1 << 48)))
        chunk = 20000
        for k in range(0, len(todo), chunk):
            self.check_file(exe, todo[k:k + chunk], pid, res, "sched%d" % k)
        res.notes["profiles"] = {p: (q if tier == "quick" else t) for p, q, t in self.spec}
        return res
