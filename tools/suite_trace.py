"""Random programs run by a driver under the controlled scheduler, checked against a trace specification.

A dialect is a module with  driver, spec (TLA+ module), gen(rng, profile) -> program (list of lines),
convert(i, program, run) -> dict(id, ev, ...)."""
import hashlib
import importlib
import os
import random

import build
import vplib
from suite_sched import read_runs, run_driver


class Trace:
    def __init__(self, dialect, spec, labels):
        self.d = importlib.import_module(dialect)
        self.driver = self.d.driver
        self.defs = getattr(self.d, "defs", ())
        self.extra = getattr(self.d, "extra_sim", ())
        self.spec = spec
        self.labels = labels

    def relevant(self, label):
        return label in ("CRASH", "HANG") or label.startswith("SPEC") or any(label.startswith(x) for x in self.labels)

    def exe(self):
        return build.build(self.driver, self.defs, self.extra)

    def record(self, exe, progs, tag):
        d = vplib.scratch()
        pf, of = os.path.join(d, tag + ".progs"), os.path.join(d, tag + ".runs")
        with open(pf, "w") as f:
            for p in progs:
                f.write("\n".join(p) + "\n")
        run_driver(exe, [pf, of, "8"])
        runs = read_runs(of, len(progs))
        for i, r in enumerate(runs):
            if r["end"] in ("hang", "timeout"):
                of2 = os.path.join(d, tag + ".again")
                run_driver(exe, [pf, of2, "1", str(i)])
                r2 = read_runs(of2, 1)[0]
                r2["i"] = i
                runs[i] = r2
        return runs

    def check(self, exe, progs, pid, res, tag):
        runs = self.record(exe, progs, tag)
        conv = [self.d.convert(i, progs[i], r) for i, r in enumerate(runs)]
        rej, gen, dist = vplib.tlc_traces(self.d.spec, conv)
        res.states += dist
        res.transitions += gen - len(conv)
        res.traces += len(conv)
        res.notes["events"] = res.notes.get("events", 0) + sum(len(c["ev"]) for c in conv)
        ends = res.notes.setdefault("endings", {})
        for r in runs:
            ends[r["end"]] = ends.get(r["end"], 0) + 1
        for i in (0, len(progs) // 2):
            if len(res.samples) < 4:
                res.samples.append(dict(program=progs[i], events=[" ".join(str(v) for v in e.values()) for e in runs[i]["ev"]][:60]))
        seen = set()
        for i, idx, label in rej:
            if self.relevant(label) and label not in seen:
                seen.add(label)
                name = hashlib.sha1(("\n".join(progs[i])).encode()).hexdigest()[:10]
                replay = vplib.write_replay(pid, name, dict(kind=self.driver, program=progs[i], label=label, at=idx, end=runs[i]["end"], trace=runs[i]["ev"]))
                res.violations.append(dict(label=label, replay=replay, signature=label.split(":")[0] + "-" + name))

    def run(self, pid, tier, seed):
        exe = self.exe()
        res = vplib.Result()
        rng = random.Random("%s-%s-%d-%s" % (self.driver, pid, seed, tier))
        todo = []
        for prof, q, t in self.spec:
            for _ in range(q if tier == "quick" else t):
                todo.append(self.d.gen(rng, prof))
        chunk = 20000
        for k in range(0, len(todo), chunk):
            self.check(exe, todo[k:k + chunk], pid, res, "%s%d" % (self.driver, k))
        res.notes["profiles"] = {"%s/%s" % (self.driver, p): (q if tier == "quick" else t) for p, q, t in self.spec}
        return res


ENDS = {"ok": 0, "deadlock": 1, "hang": 3, "timeout": 3}


def fin(run):
    return ENDS.get(run["end"], 2)
