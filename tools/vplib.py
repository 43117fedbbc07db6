"""What all checks share: scratch space, TLC, evidence and the reporting of violations."""
import atexit
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    """The check itself failed: no statement about the property."""


class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []  # dict(label, what, replay)
        self.notes = {}

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.samples += o.samples
        self.violations += o.violations
        for k, v in o.notes.items():
            self.notes[k] = self.notes[k] + v if isinstance(v, (int, float)) and k in self.notes else v


_scratch = None


def scratch():
    """A directory that is removed when the check ends."""
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=base)
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def tlc(module, cfg, env=None, workers=8, args=(), timeout=800, simulate=False):
    """Runs TLC in spec/ and returns (output, generated states, distinct states)."""
    md = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cmd = ["tlc", "-workers", str(workers), "-metadir", md, "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not finish within %d s: %s" % (timeout, " ".join(cmd)))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    gen = dist = 0
    for m in re.finditer(r"^([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", p.stdout, re.M):
        gen, dist, left = (int(x.replace(",", "")) for x in m.groups())
        if left and p.returncode == 0:
            raise CheckError("TLC left %d states: %s" % (left, module))
    return p.returncode, p.stdout, gen, dist


def tlc_traces(module, runs):
    """Checks recorded runs (dicts with id and ev) with a trace spec. Returns ([(id, index, label)], generated, distinct).
    A run which has events that the specification has no meaning for is rejected as SPEC."""
    runs = list(runs)
    strange = []
    while True:
        fn = os.path.join(scratch(), module + "-%d.ndjson" % len(os.listdir(scratch())))
        n = 0
        with open(fn, "w") as f:
            for r in runs:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
                n += len(r["ev"]) + 1
        rc, out, gen, dist = tlc(module + ".tla", module + ".cfg", env={"TRACES": fn})
        at = re.findall(r"^/\\ tr = (\d+)", out, re.M)
        idx = re.findall(r"^/\\ i = (\d+)", out, re.M)
        if rc in (12, 75, 76) and at and len(strange) < 3 and len(runs) > 1 and "Parsing or semantic analysis failed" not in out:
            bad = runs.pop(int(at[-1]) - 1)
            strange.append((bad["id"], int(idx[-1]) if idx else 0, "SPEC:an event without meaning"))
            os.unlink(fn)
            continue
        rej = [(int(m[1]), int(m[2]), m[3]) for m in re.finditer(r'^"REJECT (-?\d+) (\d+) (.*)"$', out, re.M)]
        if strange and rc != 0:   # enough is known
            return strange + rej, gen, dist
        break
    if rc != 0 or "Model checking completed. No error" not in out:
        raise CheckError("TLC failed on %s (%d):\n%s" % (module, rc, out[-3000:]))
    if dist != n:
        raise CheckError("TLC looked at %d states of %d in %s" % (dist, n, module))
    os.unlink(fn)
    if out.count("REJECT") != len(rej):
        raise CheckError("unreadable REJECT line in the output of " + module)
    return strange + rej, gen, dist


def tlc_model(module, cfg, what, timeout=800, workers=8, allow=None):
    """Model checks a specification. An error in it is an error of the check, not of the implementation."""
    rc, out, gen, dist = tlc(module + ".tla", cfg, timeout=timeout, workers=workers)
    if rc != 0 or "Model checking completed. No error" not in out:
        raise CheckError("the model %s does not have its properties (%d):\n%s" % (cfg, rc, out[-4000:]))
    r = Result()
    r.states, r.transitions = dist, gen
    r.notes["models"] = ["%s (%s): %d distinct states, %d transitions, complete" % (cfg, what, dist, gen)]
    return r


def write_replay(pid, name, content):
    os.makedirs(OUT, exist_ok=True)
    fn = os.path.join(OUT, "%s-%s.json" % (pid, name))
    with open(fn, "w") as f:
        json.dump(content, f, indent=1)
    return fn


def known_findings():
    """[(property, signature, text)] of the findings that are not repaired."""
    out = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", l.strip())
            if m:
                out.append((m[1], m[2], m[3]))
    return out
