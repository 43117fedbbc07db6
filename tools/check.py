#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for /repo's working tree (tier and seed from VERIF_TIER and VERIF_SEED)."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import vplib
from props import PROPS

LEVEL = "model_checking"


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    res = vplib.Result()
    try:
        for suite in PROPS[pid]:
            res.merge(suite.run(pid, tier, seed))
    except (vplib.CheckError, build.BuildError) as e:
        print("ERROR: " + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = {(p, s): t for p, s, t in vplib.known_findings()}
    for (p, s), t in known.items():
        if p == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, t))
    bad = [v for v in res.violations if (pid, v.get("signature")) not in known]
    os.makedirs(os.path.join(vplib.VERIF, "evidence"), exist_ok=True)
    cov = dict(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.traces, samples=res.samples[:6])
    cov.update(res.notes)
    with open(os.path.join(vplib.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level=LEVEL, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(bad)), f, indent=1)
    print("%s: %d traces of the implementation, %d states, %d transitions, %.1f s" % (pid, res.traces, res.states, res.transitions, time.time() - t0))
    for v in bad:
        print("  " + v["label"])
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, bad[0]["replay"]))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
