"""Turns recorded runs of drivers/sched.cpp into the integer events that spec/SchedTrace.tla reads."""
import json
from catalog import CAT, IDLE_CAT

ENDS = {"ok": 0, "deadlock": 1, "hang": 3}


def parse_prog(lines):
    h = dict(threads=2, inst=[], late=[], force=False)
    for l in lines:
        w, _, rest = l.partition(" ")
        if w == "prog":
            h["threads"] = int(rest.split()[1])
        elif w == "install":
            h["inst"] = [int(x) for x in rest.split()]
        else:
            for tok in rest.replace("(", " ").replace(")", " ").split():
                if tok[0] == "b":
                    h["late"].append(int(tok[1:]))
                if tok[0] == "F":
                    h["force"] = True
    return h


def convert(idx, prog_lines, run):
    h = parse_prog(prog_lines)
    end = ENDS.get(run["end"], 2)
    starts = {}
    for e in run["ev"]:
        if e["e"] == "start" and e["m"] >= 0:
            starts.setdefault(e["m"], []).append(e["r"])
    # messages whose emit is still going on when the shutdown starts
    opened = set()
    for e in run["ev"]:
        if e["e"] == "emit":
            opened.add(e["m"])
        elif e["e"] == "emitted" and e.get("s") != 2:
            opened.discard(e["m"])
        elif e["e"] == "sd":
            break
    main = 0
    for e in run["ev"]:
        if e["e"] == "pp_start":
            main = e["t"]
    ev = []
    nidle = 0
    idle_m = {}
    for e in run["ev"]:
        k = e["e"]
        if k == "emit":
            ev.append([1, e["t"], e["m"], e["k"], e["s"], sorted(set(starts.get(e["m"], []))), 1 if e["m"] in opened else 0])
        elif k == "emitted":
            ev.append([2, e["t"], e["m"]])
        elif k == "start":
            m = e["m"]
            if m < 0:
                nidle += 1
                m = -nidle
                idle_m[(e["t"], e["r"])] = m
            ev.append([3, e["t"], e["r"], m, e["sc"]])
        elif k == "end":
            m = e["m"]
            if m < 0:
                m = idle_m.get((e["t"], e["r"]), -1)
            ev.append([4, e["t"], e["r"], m, e["x"], e["sc"]])
        elif k in ("ctl", "ctld"):
            ev.append([5 if k == "ctl" else 6, e["t"], e["r"], e["c"]])
        elif k in ("bind", "bound"):
            ev.append([7 if k == "bind" else 8, e["t"], e["r"]])
        elif k == "quiet":
            ev.append([12, 0])
        elif k == "sd":
            ev.append([13, e["t"], e["f"]])
        elif k == "sdd":
            ev.append([14, e["t"], e["f"]])
        elif k in ("shutr", "shutr_end", "startup", "startup_end", "pp_start", "start_ret"):
            ev.append([{"shutr": 15, "shutr_end": 16, "startup": 17, "startup_end": 18, "pp_start": 19, "start_ret": 20}[k], e["t"]])
    ev.append([22, end])
    uni = sorted(set(r for r in h["inst"] + h["late"] if r in CAT))
    idleg = sorted({g for r in h["inst"] if r in IDLE_CAT for g in IDLE_CAT[r]["g"]})
    return dict(id=idx, h=[h["threads"], main, end, 1 if (end or h["force"]) else 0, 1 if h["force"] else 0], inst=h["inst"], uni=uni, idleg=idleg, ev=ev)


def read_progs(fn):
    out = []
    for l in open(fn):
        l = l.rstrip("\n")
        if l.startswith("prog "):
            out.append([])
        if l:
            out[-1].append(l)
    return out


if __name__ == "__main__":
    import sys
    progs = read_progs(sys.argv[1])
    n = 0
    lim = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
    with open(sys.argv[3], "w") as f:
        for l in open(sys.argv[2]):
            r = json.loads(l)
            f.write(json.dumps(convert(r["i"], progs[r["i"]], r), separators=(",", ":")) + "\n")
            n += 1
            if n >= lim:
                break
