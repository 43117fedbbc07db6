"""Dialect: the files recorded by the TraceController (P29)."""
import suite_trace

driver = "tracefile"
spec = "TraceFileTrace"
KIND = {0: 0, 1: 0, 5: 0, 2: 1, 3: 1, 4: 1, 6: 2, 7: 2, 8: 2, 9: 3, 10: 3}


def gen(rng, prof):
    race = prof == "race"
    flags = (1 if rng.random() < 0.15 else 0) + (2 if rng.random() < 0.25 else 0)
    inst = rng.sample([k * 16 + v for k in range(2) for v in list(KIND) + [11, 12]], rng.randint(1, 6))
    kinds = sorted({KIND[r % 16] for r in inst if r % 16 in KIND})
    p_log = rng.choice([0.1, 0.3, 0.6])
    big = rng.random() < 0.3

    def log():
        z = rng.choice([0, 1, 2, 4, 5, 6, 7]) if not big else rng.randrange(16)
        return "%s%d" % (rng.choice("lg"), rng.randrange(2) * 8 + rng.randint(1, 6) + 32 * z)

    def ops(depth, n, script):
        out = []
        for _ in range(n):
            x = rng.random()
            if script and x < (0.4 if race else 0.0):
                out.append(rng.choice(["B1", "B1", "B0", "F", "F", "B3"] if rng.random() < 0.3 else ["B1", "B0", "F"]))
            elif x < 0.4 + p_log / 3:
                out.append(log())
            elif x < 0.5 + p_log / 3:
                out.append(rng.choice(["y%d" % rng.randint(1, 3), "s%d" % rng.choice([1, 10, 200]), "n"]))
            elif x < 0.54 + p_log / 3 and depth:
                out.append("t")
            elif kinds:
                k = rng.choice(kinds) if rng.random() < 0.9 else rng.randrange(4)
                b = ops(depth + 1, rng.choice([0, 0, 1, 2]), False) if depth < (2 if len(inst) < 4 else 1) and rng.random() < 0.6 else []
                out.append("%s%d%s" % (rng.choice("eei"), k, "(" + " ".join(b) + ")" if b else ""))
        return out

    lines = ["prog %d %d %d %s" % (rng.randrange(1, 1 << 48), rng.choice([1, 2, 2, 3]), flags, " ".join(map(str, sorted(inst))))]
    for ph in range(rng.randint(2, 5)):
        if not race and rng.random() < 0.65:
            lines.append("phase " + rng.choice(["B1", "B1", "B1", "B0", "F", "F", "F B1", "B1 B0", "B3", "F F"]))
        lines.append("phase " + " | ".join(" ".join(ops(0, rng.randint(1, 4), j == 0)) or "y1" for j in range(rng.choice([1, 2, 2, 3]))))
    return lines


def convert(i, prog, run):
    ev = []
    for e in run["ev"]:
        k = e["e"]
        g = lambda *a: [e[x] for x in a]
        if k == "ev":
            ev.append([1] + g("t", "y", "k", "n", "g", "w", "p", "v", "u", "q"))
        elif k == "log":
            ev.append([2] + g("t", "m", "l", "n", "g", "s"))
        elif k == "logged":
            ev.append([3] + g("t", "m"))
        elif k == "at":
            ev.append([4] + g("t"))
        elif k == "begin":
            ev.append([5] + g("t", "f", "l", "b"))
        elif k == "stop":
            ev.append([6] + g("t"))
        elif k == "quiet":
            ev.append([7, 0])
        elif k == "over":
            ev.append([8, 0])
        elif k == "file":
            ev.append([10] + g("f", "x"))
        elif k == "def":
            ev.append([11] + g("f", "i", "y", "m", "n", "q"))
        elif k == "track":
            ev.append([12] + g("f", "i", "o", "y", "p", "d", "c", "n"))
        elif k == "rec":
            ev.append([13] + g("f", "y", "i", "n", "c", "ci", "u", "k", "b", "p", "v", "q", "s"))
        elif k == "clear":
            ev.append([14] + g("f", "i", "q", "s", "d", "n"))
        elif k == "bad":
            ev.append([15] + g("f", "w"))
        elif k == "eof":
            ev.append([16] + g("f"))
    ev.append([17, suite_trace.fin(run)])
    return dict(id=i, ev=ev)
