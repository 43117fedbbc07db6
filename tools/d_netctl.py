"""Dialect: a power plant with the network controller (P22, P25, P26)."""
import suite_trace

driver = "netctl"
extra_sim = ("vpnet",)
spec = "NetCtlTrace"


def gen(rng, prof):
    lines = ["prog %d %d %d %s" % (rng.randrange(1, 1 << 31), rng.choice([1, 2, 2, 3]), 6 if rng.random() < 0.2 else 4,
                                   "".join(rng.choice("bu") + str(rng.choice([0, 0, 1, 2, 3])) for _ in range(rng.randint(1, 4))))]
    acts = []
    names = ["p1", "p2", "p1", "p3"]
    start = [rng.choice(["b", "b", "b", ""]) + str(r) for r in range(6)]
    acts.append((0, "o " + ("".join(x for x in start if len(x) == 2) or "b0")))
    t = 0
    confs = [rng.choice([0, 0, 0, 30])] + ([rng.randint(800, 2500)] if rng.random() < 0.3 else [])
    for i, c in enumerate(confs):
        acts.append((c, "c %s" % rng.choice(["me", "other", "x"])))
    end = rng.choice([700, 1500, 2600])
    n = rng.choice([1, 2, 2, 3])
    for i in range(1, n + 1):
        acts.append((confs[0] + rng.choice([5, 5, 20, 300]), "a %d %s" % (i, names[i - 1])))
        if rng.random() < 0.3:
            x = rng.randint(100, end)
            acts.append((x, rng.choice(["l %d %d" % (i, rng.randint(0, 1)), "s %d" % i])))
            if rng.random() < 0.6:
                acts.append((x + rng.choice([0, 1, 50, 600]), "a %d %s" % (i, rng.choice(names))))
    if prof == "race":
        for _ in range(rng.randint(6, 16)):
            i, x = rng.randint(1, n), rng.randint(20, end)
            todo = ["a %d %s" % (i, rng.choice(names)), "l %d %d" % (i, rng.randint(0, 1)), "l %d 1" % i, "m %d 0 1 8 %d 1" % (i, rng.randint(0, 1)), "a %d %s" % (i, rng.choice(names))]
            acts += [(x, a) for a in rng.sample(todo, rng.randint(2, 5))]
            if rng.random() < 0.15:
                acts.append((x, "c %s" % rng.choice(["me", "other", "x"])))
    for _ in range(rng.randint(4, 14)):
        t = rng.choice([rng.randint(20, end), rng.choice([100, 101, 102, 510, 520])])
        for _ in range(rng.choice([1, 1, 2, 4])):
            k = rng.random()
            if k < 0.6:
                ty = rng.choice([0, 0, 0, 1, 1, 2, 2, 3])
                ln = {0: 8, 1: 12, 2: rng.choice([1, 5, 40]), 3: 8}[ty]
                if rng.random() < (0.35 if prof == "bad" else 0.05):
                    ln = rng.choice([1, 7, 9, 8, 12, 24, 5])
                acts.append((t, "m %d %d %d %d %d %d" % (rng.randint(1, n), ty, rng.randint(0, 1), ln, rng.randint(0, 1), rng.choice([1, 1, 1, 2]))))
            elif k < 0.8:
                acts.append((t, "o " + "".join(rng.choice("bbuudn") + str(rng.randint(0, 5)) for _ in range(rng.choice([1, 1, 2])))))
            else:
                acts.append((t, "e %d %s %d %d" % (rng.randint(0, 2), rng.choice(["*", "p1", "p2", "p3", "nobody"]), rng.randint(0, 1), rng.choice([1, 3, 30]))))
    acts.sort(key=lambda x: x[0])
    return lines + ["%d %s" % a for a in acts] + ["end %d" % (end + 100)]


KINDS = {"open": (1, ["t", "th"]), "rx": (2, ["t", "th", "s", "k", "a", "ty", "id", "rel", "d"]), "tx": (3, ["t", "th", "s", "k", "a", "ty", "id", "rel", "d"]),
         "join": (4, ["t", "th", "a", "name"]), "leave": (5, ["t", "th", "a", "name"]), "run": (6, ["t", "th", "r", "a", "name", "rel", "d"]),
         "bind": (7, ["t", "th", "a"]), "bound": (8, ["t", "th", "a"]), "unb": (9, ["t", "th", "a"]), "unbd": (10, ["t", "th", "a"]),
         "ctl": (11, ["t", "th", "a", "b"]), "ctld": (12, ["t", "th", "a", "b"]), "emit": (13, ["t", "th", "ty", "to", "rel", "d"]),
         "conf": (14, ["t", "th", "name"]), "quiet": (15, ["t"]), "sd": (16, ["t"]), "over": (17, ["t"]), "block": (18, ["t"])}


def convert(i, prog, run):
    ev = []
    for e in run["ev"]:
        if e["e"] == "open" and e["a"] == 0:
            continue
        if e["e"] in KINDS:
            k, f = KINDS[e["e"]]
            ev.append([k] + [e[x] for x in f])
    ev.append([99, suite_trace.fin(run)])
    return dict(id=i, ev=ev)
