"""Random program generation for drivers/sched.cpp."""
import random
from catalog import CAT, IDLE_CAT

GROUPED = [1, 2, 3, 4, 5, 21, 30, 37, 38, 20, 7, 42, 44, 45]
PRIO = [16, 17, 18, 19, 26, 27, 28, 29, 0, 6]
POOLS = [6, 7, 8, 23, 24, 20, 25, 22, 0, 32]
INLINE = [43, 48, 9, 10, 11, 12, 31, 33, 34, 36, 35, 15]
BUF = [13, 14, 32, 39, 48, 49]
ONCE = [15, 33, 34, 40]
SCOPE = [35, 36, 9, 0, 43, 46, 47]
ALL = sorted(CAT)

PROFILES = {
    "mix": dict(pool=ALL, ni=(4, 10)),
    "group": dict(pool=GROUPED + [12, 31], ni=(2, 6)),
    "group1": dict(pool=[1, 2, 30, 4, 21, 3], ni=(2, 5)),
    "prio": dict(pool=PRIO, ni=(4, 8), gate=0.5),
    "pools": dict(pool=POOLS, ni=(3, 7), early=0.4),
    "inline": dict(pool=INLINE + [1, 0], ni=(4, 8), inl=0.5, ctl=0.2),
    "buffer": dict(pool=BUF + [0, 1], ni=(2, 4)),
    "ctl": dict(pool=ALL, ni=(4, 8), ctl=0.4),
    "bind": dict(pool=ALL, ni=(7, 12), bind=True),
    "once": dict(pool=ONCE + [0], ni=(3, 5), inl=0.3),
    "throw": dict(pool=ALL, ni=(4, 8), throw=0.35),
    "shutdown": dict(pool=ALL, ni=(4, 8), sd=0.5),
    "edge": dict(pool=[0, 6, 7, 8, 23, 16, 20, 1, 5], ni=(3, 6), sd=1.0, flat=True, init=0.05, early=0.0, gate=0.0),
    "force": dict(pool=ALL, ni=(4, 8), sd=0.5, force=1.0),
    "idle": dict(pool=[0, 1, 3, 6, 26, 32, 13], ni=(2, 4), idle=(1, 3)),
    "hold": dict(pool=[0, 6, 8, 26, 32, 7, 23, 1], ni=(3, 5), idle=(2, 4), gate=0.9, hold=True),
    "scope": dict(pool=SCOPE, ni=(3, 6), inl=0.4, throw=0.2),
    "startup": dict(pool=ALL, ni=(4, 8), init=1.0, early=0.4),
}


def gen(rng, prof, seed):
    pf = PROFILES[prof]
    ni = rng.randint(*pf["ni"])
    pool = list(dict.fromkeys(pf["pool"]))
    inst = sorted(rng.sample(pool, min(ni, len(pool))))
    kinds = sorted({CAT[r]["k"] for r in inst})
    idles = []
    if "idle" in pf:
        idles = sorted(rng.sample(sorted(IDLE_CAT), rng.randint(*pf["idle"])))
    late = []
    if pf.get("ctl") and len(inst) > 2:
        late = rng.sample(inst, min(len(inst) - 1, rng.choice([1, 1, 2, 3, 4])))
    if pf.get("bind"):
        late = rng.sample(inst, rng.randint(4, len(inst) - 1))
    gate_n = [0]
    no_gate = [False]

    def ops(depth, n, in_reaction):
        out = []
        for _ in range(n):
            x = rng.random()
            if x < (0.70 if not pf.get("flat") else 0.93) and (depth < 3):
                mode = "e"
                if rng.random() < pf.get("inl", 0.12):
                    mode = "i"
                elif in_reaction is None and rng.random() < 0.3:
                    mode = "z"
                k = rng.choice(kinds)
                nb = rng.choice([0, 0, 1, 1, 2, 3] if depth < 2 else [0, 0, 0, 1])
                if pf.get("flat"):
                    nb = rng.choice([0, 0, 0, 0, 0, 1])
                b = ops(depth + 1, nb, True)
                out.append("%s%d%s" % (mode, k, "(" + " ".join(b) + ")" if b else ""))
            elif x < 0.80:
                out.append("y%d" % rng.randint(1, 6))
            elif x < 0.84 and depth > 0 and rng.random() < 0.5:
                out.append("s%d" % rng.randint(1, 300))
            elif x < 0.84 + 0.16 * pf.get("ctl", 0.0) and pf.get("ctl"):
                c = rng.choice("ddnnub" + "bb" * (len(late) > 1))
                if c == "b":
                    out.append("b%d" % rng.choice(late if late and rng.random() < 0.7 else inst))
                else:
                    out.append("%s%d" % (c, rng.choice(inst + idles)))
            elif in_reaction and rng.random() < pf.get("throw", 0.03):
                out.append("x0")
                break
            elif in_reaction and not no_gate[0] and rng.random() < pf.get("gate", 0.08) and gate_n[0] < 6:
                out.append("w%d" % gate_n[0])
                gate_n[0] += 1
            elif gate_n[0] and rng.random() < (0.05 if pf.get("hold") else 0.3):
                out.append("o%d" % rng.randrange(gate_n[0]))
        return out

    lines = []
    th = rng.choice([1, 2, 2, 3, 4])
    lines.append("prog %d %d %d %d" % (seed, th, 0, rng.random() < 0.1))
    lines.append("install " + " ".join(map(str, [r for r in inst if r not in late] + idles)))
    if rng.random() < pf.get("init", 0.25):
        no_gate[0] = True  # nobody could open a gate before start()
        lines.append("init " + " ".join(ops(0, rng.randint(1, 4), None)))
    no_gate[0] = False
    if rng.random() < pf.get("init", 0.25):
        lines.append("startup " + " ".join(ops(0, rng.randint(1, 3), True)))
    no_gate[0] = True
    if rng.random() < pf.get("early", 0.15):
        lines.append("early " + " | ".join(" ".join(ops(0, rng.randint(1, 6), False)) for _ in range(rng.choice([1, 1, 2]))))
    no_gate[0] = False
    if rng.random() < 0.3:
        lines.append("atsd " + " ".join(ops(1, rng.randint(1, 2), True)))
    if pf.get("bind"):
        bs = ["b%d" % r for r in late]
        m = rng.choice([2, 2, 3])
        lines.append("phase " + " | ".join(" ".join(bs[j::m]) for j in range(m)))
    for p in range(rng.choice([0, 1]) + 1 if pf.get("flat") else rng.randint(1, 3) if not pf.get("hold") else rng.randint(3, 5)):
        parts = []
        for _ in range(rng.choice([1, 1, 2, 2, 3] if not pf.get("flat") else [2, 3, 4])):
            o = ops(0, rng.randint(1, 5) if not pf.get("flat") else rng.randint(2, 7), False)
            parts.append(o)
        if gate_n[0] and p > (0 if not pf.get("hold") else rng.randint(1, 4)):
            parts.append(["o%d" % g for g in range(gate_n[0]) if rng.random() < 0.8])
        if pf.get("sd") and rng.random() < pf["sd"]:
            o = rng.choice(parts)
            # shut down in the middle of the traffic, sometimes from within a reaction
            o.insert(rng.randint(0, len(o)), "F0" if rng.random() < pf.get("force", 0.0) else "S0")
        lines.append("phase " + " | ".join(" ".join(o) for o in parts))
    return lines


def gen_file(fn, seed, spec):
    """spec: list of (profile, count). Returns the list of programs (list of lines)."""
    progs = []
    rng = random.Random(seed)
    with open(fn, "w") as f:
        for prof, n in spec:
            for _ in range(n):
                p = gen(rng, prof, rng.randrange(1, 1 << 48))
                progs.append(p)
                f.write("\n".join(p) + "\n")
    return progs


if __name__ == "__main__":
    import sys
    gen_file(sys.argv[1], int(sys.argv[2]), [(p, int(sys.argv[3])) for p in (sys.argv[4:] or PROFILES)])
