"""Dialect: timers, watchdogs, delayed emits, time travel."""
import suite_trace

driver = "chrono"
spec = "ChronoTrace"
EV = dict(quiet=1, made=2, start=3, end=4, bind=5, bound=6, unb=7, unbd=8, ctl=9, ctld=10, delay=11, delayed=12, svc=13, svcd=14, tt=15, ttd=16, sd=17, over=18)
EVERY, WATCH = [0, 1, 2, 3, 4, 5, 6, 7], [8, 9, 10, 11, 12, 13]
GROUP = {8: 0, 9: 0, 10: 1, 11: 2, 12: 3, 13: 2}


def gen(rng, prof):
    slots = {"every": lambda: rng.sample(EVERY, rng.randint(1, 4)) + rng.sample(WATCH, rng.randint(0, 1)),
             "watch": lambda: rng.sample(WATCH, rng.randint(1, 4)) + rng.sample(EVERY, rng.randint(0, 1)),
             "delay": lambda: rng.sample(EVERY, rng.randint(0, 2)),
             "travel": lambda: rng.sample(EVERY, rng.randint(0, 3)) + rng.sample(WATCH, rng.randint(0, 2))}[prof]()
    groups = sorted({GROUP[r] for r in slots if r in GROUP})
    us = lambda: rng.choice([0, 1, 100, 1000, 2000, 3000, 5000, 7000, 10000, 15000, 20000, 33000]) + rng.choice([0, 0, 0, rng.randint(0, 5)])

    def ops(depth, n):
        out = []
        for _ in range(n):
            k = rng.random()
            if prof == "watch" and groups and k < 0.45:
                out.append("S%d" % rng.choice(groups))
            elif k < (0.55 if prof == "delay" else 0.3):
                b = "(" + " ".join(ops(depth + 1, rng.randint(0, 2))) + ")" if depth < 2 and rng.random() < 0.4 else ""
                out.append("%s%d%s" % (rng.choice("DDEP"), us(), b))
            elif k < 0.45 and slots:
                out.append("%s%d" % (rng.choice("bbu"), rng.choice(slots)))
            elif k < 0.55 and slots:
                out.append("%s%d" % (rng.choice("dnn"), rng.choice(slots)))
            elif k < 0.65 and groups:
                out.append("S%d" % rng.choice(groups))
            elif k < 0.75:
                out.append("s%d" % rng.choice([1, 200, 1000, 3000, 12000]))
            elif k < 0.85:
                out.append("y%d" % rng.randint(1, 4))
        return out

    lines = ["prog %d %d" % (rng.randrange(1, 1 << 48), rng.choice([1, 2, 2, 3]))]
    for r in slots:
        period = {6: 7000, 7: 10000}.get(r, rng.choice([2000, 3000, 5000, 5001, 10000, 12500]))
        if r in WATCH:
            period = 0
        lines.append("slot %d %d %s" % (r, period, " ".join(ops(1, rng.randint(0, 3) if rng.random() < 0.6 else 0))))
    first = ["b%d" % r for r in slots if rng.random() < 0.85]
    lines.append("phase " + " ".join(first + ops(0, rng.randint(0, 2))))
    for _ in range(rng.randint(2, 6)):
        k = rng.random()
        if prof == "travel" and k < 0.5:
            w = "tt"
            if rng.random() < 0.3:
                lines.append("sleep %d" % us())
                w = "ttr"
            lines.append("%s %d %d %d" % (w, rng.randint(0, 2), rng.choice([0, 1000, 5000, 20000, 60000, -1000, -10000, -60000, 500000 if not slots else 30000]) + rng.choice([0, rng.randint(0, 3000)]),
                                       rng.choice([2, 2, 2, 4, 1, 0, 3, 6])))
        elif k < 0.35 or (prof == "watch" and k < 0.6):
            lines.append("phase " + " | ".join(" ".join(ops(0, rng.randint(1, 4))) or "y1" for _ in range(rng.choice([1, 1, 2, 3]))))
        else:
            lines.append("adv %d" % rng.choice([1000, 2000, 4999, 5000, 5001, 9000, 10000, 14000, 19000, 20001, 31000]))
        if prof == "watch" and rng.random() < 0.5:
            lines.append("adv %d" % rng.choice([5000, 9000, 9999, 10001, 14990, 19990]))
    return lines


def convert(i, prog, run):
    ev = []
    svc = {}
    for e in run["ev"]:
        k = EV.get(e["e"])
        if k is None:
            continue
        x = e["x"]
        if e["e"] == "svc":
            svc[e["t"]] = len(ev) + 1
        if e["e"] == "svcd":
            x = svc[e["t"]]
        ev.append([k, e["a"], e["b"], x, e["v"], e["c"]])
    ev.append([19, suite_trace.fin(run), 0, 0, 0, 0])
    return dict(id=i, ev=ev)
