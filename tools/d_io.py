"""Dialect: reactions to descriptors (P19)."""
import suite_trace

driver = "io"
spec = "IOTrace"
R, W, ER, CL = 1, 4, 8 | 32, 16


def gen(rng, prof):
    lines = ["prog %d %d" % (rng.randrange(1, 1 << 31), rng.choice([1, 2, 2, 3]))]
    nd = rng.choice([1, 1, 2, 3])
    kinds, slots, closed = {}, {}, set()

    def events(k, closable):
        if k == "p":
            return R | CL if closable or rng.random() < 0.5 else R
        if k == "w":
            return W | ER if closable or rng.random() < 0.3 else W
        e = rng.choice([R, R, R | CL, W, R | W, R | W | CL])
        return e

    def opn(d):
        kinds[d] = (rng.choice("ppwwssssdd"), rng.random() < 0.6)
        closed.discard(d)
        for s in [s for s in slots if slots[s] == d]:
            del slots[s]
        lines.append("open %d %d" % (d, ord(kinds[d][0])))

    def bind():
        d = rng.randrange(nd)
        free = [s for s in range(8) if s not in slots]
        if not free:
            return
        if prof == "solo" and d in slots.values():
            return
        s = rng.choice(free)
        k, c = kinds[d]
        e = events(k, c)
        if d in closed and not (e & (CL | ER)) and k in "pw":
            return
        slots[s] = d
        mode = rng.choice([0, 0, 0, 1, 2, 3]) | (4 if rng.random() < 0.3 else 0) | (8 if rng.random() < 0.15 else 0)
        lines.append("b %d %d %d %d %d %d" % (s, d, e, rng.choice([0, 0, 0, 1, 2, 3, 4, 5]), mode, rng.choice([0, 0, 0, 0, 1, 2, 4])))

    for d in range(nd):
        opn(d)
    for _ in range(rng.randint(0, 3)):
        bind()
    if rng.random() < 0.7:
        lines.append("q")
    for _ in range(rng.randint(4, 25)):
        x = rng.random()
        d = rng.randrange(nd)
        k, c = kinds[d]
        if x < 0.2:
            bind()
        elif x < 0.28 and slots:
            s = rng.choice(list(slots))
            lines.append("u %d" % s)
            del slots[s]
        elif x < 0.33 and slots:
            lines.append("dn %d %d" % (rng.choice(list(slots)), rng.choice([0, 1, 3, 10])))
        elif x < 0.38:
            opn(d)
        elif x < 0.46:
            lines.append("y %d" % rng.choice([1, 3, 10, 30]))
        elif x < 0.60:
            lines.append("q")
        elif x < 0.66:
            if d not in closed and (k == "s" or (k in "pw" and c)):
                closed.add(d)
                lines.append("cl %d" % d)
        elif x < 0.70:
            lines.append("steal %d %d" % (d, rng.choice([-1, 5])))
        elif d not in closed:
            if k == "w" or (k == "s" and rng.random() < 0.3):
                lines.append("rd %d %d" % (d, rng.choice([-1, -1, 100, 3000])))
            else:
                lines.append("wr %d %d" % (d, rng.choice([1, 5, 30] + ([0, 0] if k == "d" else []))))
    return lines


KINDS = {"st": (1, "ab"), "bind": (2, "abc"), "bound": (3, "a"), "unb": (4, "a"), "unbd": (5, "a"), "made": (6, "a"), "run": (7, "abcd"),
         "end": (8, "a"), "dis": (9, "a"), "disd": (10, "a"), "ena": (11, "a"), "enad": (12, "a"), "quiet": (13, ""), "over": (14, "")}


def convert(i, prog, run):
    inst = {e["b"]: e["a"] for e in run["ev"] if e["e"] == "bound"}
    ev = []
    for e in run["ev"]:
        if e["e"] in KINDS:
            k, f = KINDS[e["e"]]
            row = [k] + [e[x] for x in f]
            if e["e"] == "made":
                row[1] = inst.get(row[1], max([x["a"] for x in run["ev"] if x["e"] == "bind"], default=0))
            ev.append(row)
    ev.append([99, suite_trace.fin(run)])
    return dict(id=i, ev=ev)
