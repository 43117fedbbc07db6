"""Dialect: serialisation and hashing (P28)."""
import suite_trace

driver = "serialise"
spec = "SerialiseTrace"
SIZE = {0: 1, 12: 1, 20: 1, 22: 1, 26: 1, 1: 2, 6: 2, 23: 2, 28: 2, 2: 4, 8: 4, 9: 4, 10: 4, 11: 4, 21: 4, 3: 8, 4: 8, 25: 8, 29: 8, 5: 9, 24: 9, 7: 72, 27: 72}


def gen(rng, prof):
    def byts(n, t=None):
        k = rng.random()
        b = [rng.choice([0, 255, 1, 128]) if k < 0.2 else rng.randrange(256) for _ in range(n)]
        if t == 12:
            b = [x & 1 for x in b]
        if t in (4, 25):  # no signalling NaNs
            for i in range(7, n, 8):
                b[i] &= 63
        return "".join("%02x" % x for x in b)

    lines = ["prog"]
    for _ in range(12):
        t = rng.choice(sorted(SIZE))
        z = SIZE[t]
        if rng.random() < 0.4:
            lines.append("v %d %s" % (t, byts(z if t < 20 else z * rng.choice([0, 0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 60) if z < 9 else 2]), t)))
        else:
            n = rng.choice([z, z * 2, z - 1, z + 1, 0, z * 3 + 1, z // 2, rng.randint(0, 3 * z + 2)])
            if t == 12 and n == 1:
                n = 2
            lines.append("d %d %s" % (t, byts(max(0, n), t)))
    for _ in range(2):
        lines.append("h %d %s" % (rng.choice([0, 0x4e55436c, rng.randrange(1 << 64)]), byts(rng.choice([rng.randint(0, 40), rng.randint(0, 100), rng.randint(28, 36)]))))
    types = sorted(SIZE)
    rng.shuffle(types)
    for t in types + rng.sample(types, 3):
        lines.append("t %d" % t)
    return lines


def convert(i, prog, run):
    ev = []
    for e in run["ev"]:
        k = e["e"]
        if k == "ser":
            ev.append([1, e["t"], e["v"], e["o"]])
        elif k == "des":
            ev.append([2, e["t"], e["v"], e["r"], e["o"]])
        elif k == "type":
            ev.append([3, e["t"], e["h"]])
        elif k == "xx":
            ev.append([4, e["s"], e["v"], e["h"], e["g"]])
    ev.append([9, suite_trace.fin(run)])
    return dict(id=i, ev=ev)
