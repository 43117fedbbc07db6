"""Dialect: nodes over a simulated network (P22 to P26)."""
import struct

import suite_trace

driver = "network"
extra_sim = ("vpnet",)
spec = "NetworkTrace"
NAMES = ["aa", "b", "aa", "cc", "node with a longer name"]


def gen(rng, prof):
    n = {"member": rng.choice([2, 2, 3, 4]), "reliable": rng.choice([2, 2, 3]), "frag": rng.choice([2, 3]), "address": rng.choice([3, 4]),
         "inject": 2, "wrap": 2, "burst": 2}[prof]
    mode, mtu = 0, rng.choice([69, 72, 72, 76, 84])
    if prof in ("frag", "reliable") and rng.random() < 0.2:
        mode, mtu = 1, rng.choice([1500, 1500, 576, 9000, 2000, 1528, 1548, 1549])
    if prof == "burst":
        mtu = 84
    frag = mtu - 68
    lines = ["net %d %d %d %d %d" % (n, mtu, 6 if rng.random() < 0.2 else 4, mode, rng.randrange(1, 1 << 31))]
    names = [rng.choice(NAMES) if prof == "address" else NAMES[[0, 1, 3, 4][i % 4]] for i in range(n)]
    acts = []

    def size():
        k = rng.random()
        if k < 0.25:
            return rng.randint(0, min(frag * 2, 30))
        if k < 0.5:
            return max(0, frag * rng.choice([1, 2, 7, 8, 9, 15, 16] if mode == 0 else [1, 2, 7, 8]) + rng.choice([-1, 0, 0, 1]))
        return rng.randint(0, frag * (12 if mode == 0 else 5))

    def send(t, rel=None, k=None):
        target = "*" if rng.random() < (0.4 if prof != "address" else 0.25) else rng.choice(NAMES[:4] if prof == "address" else names + ["nobody"] if rng.random() < 0.2 else names)
        acts.append((t, "S %d %s %d %d %d" % (k or rng.randint(1, n), target.replace(" ", "_"), rng.randint(0, 3), int(rng.random() < 0.5) if rel is None else int(rel), size())))

    def large(t):   # more fragments than can be counted
        acts.append((t, "S %d * %d %d %d" % (rng.randint(1, n), rng.randint(0, 3), rng.randint(0, 1), 65535 * frag + rng.choice([0, 1, frag, frag, 2 * frag + 3]))))

    def faults(t, hard=1.0):
        acts.append((t, "F %d %d %d %d" % (rng.choice([0, 10, 30, 50]) * hard, rng.choice([0, 10, 40]), rng.choice([0, 5, 100, 400]), 0)))
    t0 = 0
    for k in range(1, n + 1):
        acts.append((t0, "U %d %s" % (k, names[k - 1].replace(" ", "_"))))
        if rng.random() < 0.5:
            t0 += rng.choice([1, 100, 700])
    end = t0
    if prof == "member":
        end += rng.choice([3000, 6000])
        for _ in range(rng.randint(2, 6)):
            t = rng.randint(0, end)
            k = rng.randint(1, n)
            c = rng.random()
            if c < 0.2:
                acts.append((t, "D %d" % k))
                if rng.random() < 0.7:
                    acts.append((t + rng.choice([0, 50, 600, 2500]), "U %d %s" % (k, rng.choice(NAMES[:4]))))
            elif c < 0.4:
                acts.append((t, "C %d" % k))
                if rng.random() < 0.7:
                    acts.append((t + rng.choice([0, 50, 600, 2500]), "U %d %s" % (k, rng.choice(NAMES[:4]))))
            elif c < 0.5:
                acts.append((t, "R %d %s" % (k, rng.choice(NAMES[:4]))))
            elif c < 0.65:
                acts.append((t, "Z %d %d" % (k, rng.choice([100, 700, 1900, 2100, 3000]))))
            elif c < 0.75:
                acts.append((t, "F %d 0 0 0" % rng.choice([100, 100, 90])))
                acts.append((t + rng.choice([1000, 1900, 2600]), "F 0 0 0 0"))
            elif c < 0.85:
                acts.append((t, "F 0 0 0 %d" % rng.choice([100, 50])))
                acts.append((t + rng.choice([700, 1900, 2600]), "F 0 0 0 0"))
            elif c < 0.95:
                faults(t)
            else:
                send(t)
    elif prof == "reliable":
        end += 900
        if rng.random() < 0.85:
            faults(rng.choice([0, 600]))
        for _ in range(rng.randint(2, 6)):
            t = rng.randint(600, end)
            for _ in range(rng.choice([1, 1, 3])):
                send(t, rng.random() < 0.85)
        end += rng.choice([500, 1500])
        if rng.random() < 0.3:
            acts.append((rng.randint(600, end), "Z %d %d" % (rng.randint(1, n), rng.choice([30, 300, 1200]))))
        if rng.random() < 0.15:
            acts.append((rng.randint(600, end), "%s %d" % (rng.choice(["C", "D"]), rng.randint(1, n))))
    elif prof == "frag":
        end += 900
        acts.append((600, "F %d %d %d 0" % (rng.choice([0, 0, 5, 20]), rng.choice([0, 20, 50]), rng.choice([0, 20, 200]))))
        for _ in range(rng.randint(3, 9)):
            t = rng.randint(600, end)
            for _ in range(rng.choice([1, 2, 4])):
                send(t, rng.random() < 0.12)
            if mode == 0 and frag < 10 and rng.random() < 0.03:
                large(t)
    elif prof == "address":
        end += 2500
        for _ in range(rng.randint(6, 14)):
            send(rng.randint(0, end), None)
        for _ in range(rng.randint(1, 3)):
            t = rng.randint(300, end)
            k = rng.randint(1, n)
            acts.append((t, rng.choice(["D %d" % k, "R %d %s" % (k, rng.choice(NAMES[:4])), "U %d %s" % (k, rng.choice(NAMES[:4]))])))
    elif prof == "wrap":
        faults(600, 0)
        acts[-1] = (600, "F 0 0 0 0")
        rel = rng.random() < 0.6
        for _ in range(rng.randint(1, 3)):
            if not rel:
                acts.append((700, "F 40 0 0 0"))
            send(710, rel, 1)
            acts.append((720, "F 0 0 0 0"))
            acts.append((12800, "W 1 %d" % (65536 - rng.choice([1, 1, 2, 3]))))
        for _ in range(4):
            acts.append((12900, "F %d 0 0 0" % (rng.choice([0, 40]) if rel else 0)))
            send(12910, rel or None, 1)
        end = 13000
    elif prof == "burst":
        for _ in range(rng.randint(240, 300)):
            acts.append((800, "S 1 %s 1 1 %d" % (names[1], rng.choice([3, 3, 3, 20]))))
        if rng.random() < 0.7:
            acts.append((802, "Z %d %d" % (rng.choice([1, 2]), rng.choice([100, 1300]))))
        else:
            acts.append((799, "F 30 10 %d 0" % rng.choice([0, 1200])))
        end = 2000
    elif prof == "inject":
        end += 1200
        if rng.random() < 0.5:
            faults(300, 0.3)
        for _ in range(rng.randint(2, 5)):
            send(rng.randint(300, end))
        forged = rng.random() < 0.5
        for _ in range(rng.randint(4, 16)):
            k = rng.randint(1, n)
            frm = rng.choice(["x0", "x1", "g"] + (["a1", "a2"] * 2 if forged else []))
            acts.append((rng.choice([rng.randint(0, end), rng.randint(280, 320)]), ("I %d %d %s %s" % (k, rng.randint(0, 1), frm, packet(rng, frm[0] == "x", frag))).rstrip()))
    acts.sort(key=lambda x: x[0])
    for t, a in acts:
        lines.append("%d %s" % (t, a))
    lines.append("end %d" % (end + 100))
    return lines


def packet(rng, stranger, frag):
    """Bytes that somebody might send: valid, almost valid or nothing like it."""
    k = rng.random()
    if k < 0.05:
        return ""
    if k < 0.1:
        return bytes(rng.randrange(256) for _ in range(rng.randint(1, 60))).hex()
    head = bytes([0xE2, 0x98, 0xA2, 2])
    if k < 0.15:
        head = bytes([0xE2, 0x98, rng.choice([0xA2, 0]), rng.choice([1, 3, 0])])
    typ = rng.choice([1, 2, 3, 3, 3, 4, 4, 5, 5, 6, 6, 0, 7, 255])
    ident = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 65535])
    cnt = rng.choice([1, 1, 2, 3, 8, 16, 9, 0, 7, 300, 65535, 40])
    no = rng.choice([0, 0, 1, cnt, max(0, cnt - 1), 2, 7, 8, 65535, 299])
    body = b""
    if typ == 1:
        body = rng.choice([b"\0", b"aa\0", b"zz\0", b"zz", b"", b"q" * 200 + b"\0", b"a\0b\0"])
    elif typ in (3, 4):
        body = struct.pack("<HHHBQ", ident, no, cnt, rng.choice([0, 1, 1]), 0x1122334455667700 + rng.randint(0, 3)) + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, frag, frag, 3])))
    elif typ == 5:
        bits = cnt // 8 + 1 + rng.choice([0, 0, 0, -1, 1])
        body = struct.pack("<HHH", ident, no, cnt) + bytes(rng.choice([255, 1, 0, rng.randrange(256)]) for _ in range(max(0, min(bits, 60))))
    elif typ == 6:
        bits = cnt // 8 + 1 + rng.choice([0, 0, 0, -1, 1])
        body = struct.pack("<HH", ident, cnt) + bytes(rng.choice([255, 1, 0, rng.randrange(256)]) for _ in range(max(0, min(bits, 60))))
    p = head + bytes([typ]) + body
    if rng.random() < 0.35:
        p = p[:rng.randint(0, len(p))]
    if rng.random() < 0.05:
        p += bytes(rng.choice([1, 1480, 1600]))
    return p.hex()


KINDS = {"up": (1, ["t", "n", "a", "fresh", "name"]), "down": (2, ["t", "n", "c"]), "proc": (3, ["t", "n"]), "idle": (4, ["t", "n"]),
         "rx": (5, ["t", "n", "s", "a", "l", "h", "d"]), "tx": (6, ["t", "n", "err", "a", "l", "h", "d"]), "join": (7, ["t", "n", "a", "name"]),
         "leave": (8, ["t", "n", "a", "name"]), "deliver": (9, ["t", "n", "a", "name", "hash", "rel", "d"]), "send": (10, ["t", "n", "m", "to", "hash", "rel", "d"]),
         "sent": (11, ["t", "n"]), "throw": (12, ["t", "n", "in"]), "calm": (13, ["t"]), "final": (14, ["t"]), "block": (15, ["t", "n"]), "skip": (16, ["t", "n", "k"])}


def convert(i, prog, run):
    head = prog[0].split()
    ev = []
    for e in run["ev"]:
        if e["e"] in KINDS:
            k, f = KINDS[e["e"]]
            ev.append([k] + [e[x] for x in f])
    # processing in which nothing happens says nothing
    out = []
    for e in ev:
        if e[0] == 12:
            e = [12, e[1], e[2], e[3]]
            e = [12, e[1], e[2], e[3]]
        out.append(e)
    out.append([99, suite_trace.fin(run)])
    pure = not any(" I " in l and l.split()[4][0] == "a" for l in prog)
    return dict(id=i, n=int(head[1]), mtu=int(head[2]), pure=pure, ev=out)
