"""Dialect: concurrent histories of the work queues."""
import suite_trace

driver = "queue"
spec = "QueueTrace"


def gen(rng, prof):
    single = 1 if prof == "mpsc" else 0
    np = rng.randint(1, 3)
    nc = 1 if single else rng.randint(1, 3)
    th = []
    for _ in range(np):
        th.append("".join(rng.choice("eeeey") for _ in range(rng.randint(1, 6))))
    for _ in range(nc):
        th.append("".join(rng.choice("ddddy") for _ in range(rng.randint(1, 8))))
    if not single and rng.random() < 0.3:
        th.append("".join(rng.choice("edde") for _ in range(rng.randint(2, 5))))
    rng.shuffle(th)
    pre = rng.choice([0, 64 - rng.randint(0, 8), 128 - rng.randint(0, 8), 64, 63, 62, 61])
    keep = rng.choice([0, 0, 1, 2, 3])
    return ["%d %d %d %d %d %d %s" % (rng.randrange(1, 1 << 48), single, rng.random() < 0.5, pre, keep, rng.random() < 0.5, " ".join(th))]


def convert(i, prog, run):
    ev = []
    # what each attempt is going to return
    res = {}
    for e in run["ev"]:
        if e["e"] == "deqd":
            res.setdefault(e["t"], []).append(e["v"] if e["ok"] else -1)
    pos = {}
    for e in run["ev"]:
        k = e["e"]
        if k in ("enq", "enqd"):
            ev.append([1 if k == "enq" else 2, e["t"], e["v"]])
        elif k == "deq":
            t = e["t"]
            n = pos.get(t, 0)
            pos[t] = n + 1
            r = res.get(t, [])
            ev.append([3, t, r[n] if n < len(r) else -1])
        elif k == "deqd":
            ev.append([4, e["t"], e["v"] if e["ok"] else -1])
            if e["ok"] and e["v"] < 0:
                ev[-1][2] = 10**7
        elif k == "left":
            ev.append([5, 0, e["v"]])
        elif k == "lost":
            ev.append([6, 0, e["v"]])
        elif k == "destroyed":
            ev.append([7, 0, 0])
    ev.append([9, 0, suite_trace.fin(run)])
    return dict(id=i, ev=ev)
