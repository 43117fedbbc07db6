"""Dialect: what data the executions of reactions see."""
import suite_trace

driver = "data"
spec = "DataTrace"
TRIG = {0: [0], 1: [0], 2: [0], 3: [0, 1], 4: [0], 5: [1], 6: [2], 7: [0, 1], 8: [0], 9: [3], 10: [3], 11: [3], 12: [1], 13: [2], 14: [1], 15: [3], 16: [2], 17: [3]}
LAST = [4, 5, 10, 11, 16]


def gen(rng, prof):
    if prof == "last":
        inst = sorted(set(rng.sample(LAST, rng.randint(1, 3)) + rng.sample(sorted(TRIG), rng.randint(0, 3))))
    else:
        inst = sorted(rng.sample(sorted(TRIG), rng.randint(2, 8)))
    kinds = sorted({k for r in inst for k in TRIG[r]})

    def ops(depth, n):
        out = []
        for _ in range(n):
            if rng.random() < 0.15:
                out.append("y%d" % rng.randint(1, 4))
                continue
            k = rng.choice(kinds) if rng.random() < 0.7 else rng.randrange(4)
            b = ops(depth + 1, rng.choice([0, 0, 1, 2])) if depth < 2 and rng.random() < 0.4 else []
            out.append("%s%d%s" % (rng.choice("eeei"), k, "(" + " ".join(b) + ")" if b else ""))
        return out

    lines = ["prog %d %d %s" % (rng.randrange(1, 1 << 48), rng.choice([1, 2, 3]), " ".join(map(str, inst)))]
    for _ in range(rng.randint(1, 2)):
        lines.append("phase " + " | ".join(" ".join(ops(0, rng.randint(1, 6))) for _ in range(rng.choice([1, 2, 2, 3]))))
    return lines


def convert(i, prog, run):
    ev = []
    for e in run["ev"]:
        k = e["e"]
        if k == "emit":
            ev.append([1, e["t"], e["m"], e["k"]])
        elif k == "emitted":
            ev.append([2, e["t"], e["m"]])
        elif k == "run":
            ev.append([3, e["t"], e["r"], [d if d else [0] for d in e["d"]]])
        elif k == "quiet":
            ev.append([4, 0])
    ev.append([9, suite_trace.fin(run)])
    return dict(id=i, inst=[int(x) for x in prog[0].split()[3:]], ev=ev)
