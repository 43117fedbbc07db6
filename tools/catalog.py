"""The reactions the driver drivers/sched.cpp can bind (must agree with its RX/RI table)."""
SA, SB, SC, G2 = 1, 2, 3, 4
GROUP_CAP = {SA: 1, SB: 1, SC: 1, G2: 2}
MAIN, DEF, P1, P2, PP, PN = 0, 1, 2, 3, 4, 5
POOL_CONC = {MAIN: 1, P1: 1, P2: 2, PP: 1, PN: 1}
REALTIME, HIGH, NORMAL, LOW, IDLE = 1000, 750, 500, 250, 0


def R(k, g=(), p=DEF, pr=NORMAL, inl=0, buf=0, once=0, sc=0):
    # inl: 0 neutral, 1 ALWAYS, 2 NEVER
    return dict(k=k, g=list(g), p=p, pr=pr, inl=inl, buf=buf, once=once, sc=sc)


CAT = {
    0: R(0), 1: R(1, [SA]), 2: R(2, [SA], pr=HIGH), 3: R(3, [SB]), 4: R(4, [SA, SB]), 5: R(5, [G2]), 6: R(6, p=P1),
    7: R(6, [SA], p=P2), 8: R(7, p=MAIN), 9: R(8, inl=1), 10: R(8, inl=2), 11: R(8), 12: R(9, [SA], inl=1),
    13: R(10, buf=1), 14: R(10, buf=2), 15: R(11, once=1), 16: R(12, p=P1, pr=LOW), 17: R(13, p=P1, pr=HIGH),
    18: R(14, p=P1, pr=REALTIME), 19: R(15, p=P1, pr=IDLE), 20: R(16, [SB, G2], p=P2), 21: R(17, [SA, SB], pr=HIGH),
    22: R(18, [SA], p=P1, pr=LOW), 23: R(19, p=PP), 24: R(20, [SA], p=MAIN), 25: R(21, [SA, SB], p=P1), 26: R(22, pr=LOW),
    27: R(23, pr=HIGH), 28: R(24, pr=REALTIME), 29: R(25, pr=IDLE), 30: R(26, [SA], pr=LOW), 31: R(27, [SA, SB], inl=1),
    32: R(28, p=P2, buf=2), 33: R(29, once=1, inl=1), 34: R(29, inl=1), 35: R(30, sc=1), 36: R(30, inl=1, sc=2),
    37: R(31, [SC, SB], pr=LOW), 38: R(32, [SA, G2]), 39: R(33, [SA], buf=1), 40: R(11, p=P2, once=1), 41: R(0, p=P2),
    42: R(34, [SA, SB, SC]), 43: R(35, inl=1, sc=1), 44: R(36, [SC, SA, G2], p=P2, pr=HIGH), 45: R(36, [SB, SA]), 46: R(35, [SC], sc=1), 47: R(37, inl=1, sc=3),
    48: R(37, [SA], buf=2, inl=1), 49: R(38, buf=3, p=P1),
}
# idle reactions: (pool they watch or -1 for the whole system, pool they run on, groups, buf)
IDLE_CAT = {50: dict(watch=-1, p=DEF, g=[], buf=0), 51: dict(watch=DEF, p=DEF, g=[], buf=0), 52: dict(watch=P1, p=DEF, g=[], buf=0),
            53: dict(watch=-1, p=P1, g=[], buf=0), 54: dict(watch=P2, p=DEF, g=[], buf=1), 55: dict(watch=DEF, p=DEF, g=[SA], buf=0)}
