"""Dialect: reaction events (P20) and log messages (P27)."""
import suite_trace

driver = "observe"
spec = "ObserveTrace"
KIND = {0: 0, 1: 0, 5: 0, 2: 1, 3: 1, 4: 1, 6: 2, 7: 2, 8: 2, 9: 3}


def gen(rng, prof):
    if prof == "events":
        flags = rng.choice([0, 8, 8, 8 + 16, 8 + 32, 63 - 4, 16, 8 + 48])
        inst = rng.sample([k * 16 + v for k in range(3) for v in KIND], rng.randint(2, 7))
    else:
        flags = rng.choice([1, 2, 3, 4, 7, 7, 15, 31])
        inst = rng.sample([k * 16 + v for k in range(3) for v in (0, 1, 3, 9, 2)], rng.randint(2, 5))
    if flags & 48:
        inst += [rng.randrange(3) * 16 + v for v in (10, 11) if rng.random() < 0.8]
    inst = sorted(set(inst))
    kinds = sorted({KIND[r % 16] for r in inst if r % 16 in KIND})
    p_log = 0.15 if prof == "events" else 0.55

    def log():
        return "%s%d" % (rng.choice("lllLLgGpPq"), rng.randrange(3) * 8 + rng.randint(1, 6))

    def ops(depth, n):
        out = []
        for _ in range(n):
            x = rng.random()
            if x < p_log:
                out.append(log())
            elif x < p_log + 0.1:
                out.append(rng.choice(["y%d" % rng.randint(1, 3), "s%d" % rng.choice([1, 10, 200]), "n"]))
            elif x < p_log + 0.16 and depth:
                out.append("t")
            elif kinds:
                k = rng.choice(kinds) if rng.random() < 0.85 else rng.randrange(4)
                b = ops(depth + 1, rng.choice([0, 0, 1, 2, 2])) if depth < (2 if len(inst) < 5 else 1) and rng.random() < 0.75 else []
                out.append("%s%d%s" % (rng.choice("eei"), k, "(" + " ".join(b) + ")" if b else ""))
        return out

    lev = lambda: "%d %d" % (rng.randint(0, 6), rng.choice([6, 6, rng.randint(0, 6)]))
    lines = ["prog %d %d %d %s %s %s %s" % (rng.randrange(1, 1 << 48), rng.choice([1, 2, 3]), flags, lev(), lev(), lev(), " ".join(map(str, inst)))]
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.4:
            lines.append("phase " + " ".join("w%d" % (rng.randrange(3) * 64 + rng.randint(0, 6) * 8 + rng.randint(0, 6)) for _ in range(rng.randint(1, 2))))
        lines.append("phase " + " | ".join(" ".join(ops(0, rng.randint(1, 4))) or "y1" for _ in range(rng.choice([1, 2, 2, 3]))))
    return lines


def convert(i, prog, run):
    ev = []
    for e in run["ev"]:
        k = e["e"]
        g = lambda *a: [e[x] for x in a]
        if k == "emit":
            ev.append([1] + g("t", "m", "k", "v"))
        elif k == "emitted":
            ev.append([2] + g("t", "m"))
        elif k == "ev":
            ev.append([3] + g("t", "y", "k", "r", "ct", "cr", "tp", "ng", "c", "s", "f", "x", "v"))
        elif k == "run":
            ev.append([4] + g("t", "r", "k", "s", "m", "v"))
        elif k == "done":
            ev.append([5] + g("t", "r", "k", "x", "v"))
        elif k == "stat":
            ev.append([6] + g("t", "k", "r", "x"))
        elif k == "obs":
            ev.append([7] + g("t", "k", "y"))
        elif k == "obsd":
            ev.append([8] + g("t", "k", "y"))
        elif k == "log":
            ev.append([9] + g("t", "m", "l", "k"))
        elif k == "logged":
            ev.append([10] + g("t", "m"))
        elif k == "got":
            ev.append([11] + g("t", "r", "m", "l", "d", "k", "s"))
        elif k == "lev":
            ev.append([12] + g("t", "k", "a", "b"))
        elif k == "n":
            ev.append([13] + g("t", "m"))
        elif k == "quiet":
            ev.append([14, 0])
    ev.append([15, suite_trace.fin(run)])
    h = prog[0].split()
    return dict(id=i, flags=int(h[3]), lev=[[int(h[4]), int(h[5])], [int(h[6]), int(h[7])], [int(h[8]), int(h[9])]], inst=[int(x) for x in h[10:]], ev=ev)
