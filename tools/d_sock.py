"""Dialect: UDP and TCP reactions (P30)."""
import suite_trace

driver = "sock"
spec = "SockTrace"
LO, LO6, VETH, DIRECTED, LIMITED, G1, G2, ANY = range(1, 9)
SIZES = [0, 1, 2, 7, 100, 1000, 1472, 1473, 9000, 32767, 65506, 65507]


def gen(rng, prof):
    lines = ["prog %d %d" % (rng.randrange(1, 1 << 31), rng.choice([1, 2, 2, 3]))]
    if prof == "ports":
        lines += ["b %d 0 %d 0 0 0 0" % (i, rng.choice([ANY, ANY, LO])) for i in range(80)]
        for i in rng.sample(range(80), 12):
            lines.append("s %d %d %d 20 0" % (i, LO, i + 1))
        return lines
    ident = [0]
    slots = {}
    out, side = [], []

    def bind(to):
        free = [i for i in range(12) if i not in slots]
        if not free:
            return
        i = rng.choice(free)
        kind = rng.choice([0, 0, 0, 1, 2, 3, 4, 4, 4]) if prof != "tcp" else rng.choice([0, 4, 4, 4])
        a = ANY if kind in (1, 2, 3) else rng.choice([ANY, ANY, LO, LO, LO6, VETH])
        port = 0
        if kind in (2, 3):
            port = 21000 + rng.randrange(2)
        elif kind < 4 and rng.random() < 0.3:
            port = 22000 + i
        slots[i] = (kind, a)
        stop = rng.choice([0, 0, 0, 0, 0, 1, 2])
        to.append("b %d %d %d %d %d %d %d" % (i, kind, a, port, rng.choice([0, 0, 0, 0, 1, 2, 3, 4, 5, 6]), stop, rng.choice([0, 0, 0, 1, 2, 3])))

    def use(to):
        if not slots:
            return
        i = rng.choice(list(slots))
        kind, a = slots[i]
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            ident[0] += 1
            if kind == 4:
                t = a if a != ANY else rng.choice([LO, LO, VETH])
                if rng.random() < 0.1:
                    t = rng.choice([LO, VETH])
                to.append("c %d %d %d %d" % (i, t, ident[0], rng.choice([0, 0, 1])))
                continue
            t = {0: a if a != ANY else rng.choice([LO, LO, VETH]), 1: rng.choice([DIRECTED, LIMITED]), 2: G1, 3: G2}[kind]
            if rng.random() < 0.15:
                t = rng.choice([LO, VETH, DIRECTED, LIMITED, G1, G2])
            if a == LO6:
                t = LO6
            how = rng.choice([0, 0, 1, 2, 3, 4])
            if t >= DIRECTED and t <= LIMITED:
                how = rng.choice([0, 0, 1, 3])
            big = rng.random() < 0.25 and t < DIRECTED
            size = rng.choice(SIZES if big else SIZES[:7])
            if how and t == VETH:
                pass
            to.append("s %d %d %d %d %d" % (i, t, ident[0], min(size, 65507), how))

    def drop(to):
        if slots:
            i = rng.choice(list(slots))
            if rng.random() < 0.7:
                del slots[i]
            to.append("u %d" % i)

    for _ in range(rng.randint(1, 5)):
        bind(out)
    for _ in range(rng.randint(4, 30)):
        x = rng.random()
        if x < 0.12:
            bind(out)
        elif x < 0.2:
            drop(out)
        elif x < 0.25:
            out.append("y %d" % rng.choice([1, 3, 10, 40]))
        elif x < 0.32:
            out.append("q")
        elif x < 0.36:
            out.append("t")
        else:
            use(out)
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 8)):
            x = rng.random()
            (bind if x < 0.35 else drop if x < 0.75 else use)(side)
            if rng.random() < 0.3:
                side.append("y %d" % rng.choice([1, 3, 10, 40]))
    return lines + out + ["side"] + side


KINDS = dict(net=0, bind=1, bound=2, nobind=3, unb=4, unbd=5, send=6, run=7, conn=8, crun=9, alive=10, echo=11, quiet=12, over=13)


def convert(i, prog, run):
    ev = [[KINDS[e["e"]]] + e["v"] for e in run["ev"] if e["e"] in KINDS]
    ev.append([99, suite_trace.fin(run)])
    return dict(id=i, ev=ev)
