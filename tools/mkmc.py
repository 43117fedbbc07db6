#!/usr/bin/env python3
"""Writes the TLC configurations of spec/SchedMC.tla."""
import os

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
# name: reactions, default pool threads, emitters, workers, nested emits, handle operations, emit modes
CONF = {
    "group": ([1, 3, 4], 2, [10], [1, 2], False, False, [0]),
    "order": ([1, 2, 4], 2, [10], [1, 2], False, False, [0]),
    "multi": ([4, 37, 42], 2, [10], [1, 2], False, False, [0]),
    "wide": ([5, 38], 3, [10], [1, 2, 3], False, False, [0]),
    "prio": ([16, 17, 19], 1, [10, 11], [1], False, False, [0]),
    "pools": ([6, 7, 8], 1, [10], [0, 1, 2, 3], False, False, [0]),
    "inline": ([9, 10, 11, 12], 1, [10], [1, 2], True, False, [0, 1]),
    "buffer": ([13, 14, 39], 2, [10], [1, 2], False, False, [0]),
    "ctl": ([0, 1], 1, [10], [1], False, True, [0]),
    "once": ([15, 33, 34], 2, [10], [1, 2], False, False, [0, 1]),
}
SIZES = {"quick": (2, 14), "thorough": (3, 17)}
for name, (inst, th, em, wk, nest, ctl, modes) in CONF.items():
    for size, (m, e) in SIZES.items():
        if name in ("ctl", "inline", "pools"):
            e -= 3
        st = lambda v: "{" + ", ".join(map(str, v)) + "}"
        with open(os.path.join(SPEC, "SchedMC_%s_%s.cfg" % (name, size)), "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n Inst = %s\n DefThreads = %d\n Emitters = %s\n Workers = %s\n MaxM = %d\n MaxE = %d\n Nest = %s\n Ctl = %s\n Modes = %s\n"
                    "INVARIANTS Exclusive Pools Bounded OnceEach OnceOnly Dischargeable Closable MayRest NoneLeft\nCHECK_DEADLOCK FALSE\n"
                    % (st(inst), th, st(em), st(wk), m, e, str(nest).upper(), str(ctl).upper(), st(modes)))
