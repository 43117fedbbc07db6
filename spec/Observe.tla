------------------------------- MODULE Observe -------------------------------
(* What reaction events (P20) and log messages (P27) must say about the       *)
(* execution.  Each thread has a stack of frames: E an emit, L a log call,    *)
(* T a task it executes.  Times are in units of 100 ns.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
EMIT == 1  EMITTED == 2  EV == 3  RUN == 4  DONE == 5  STAT == 6  OBS == 7  OBSD == 8  LOG == 9  LOGGED == 10  GOT == 11  LEV == 12  NN == 13  QUIET == 14  FIN == 15
CREATED == 0  MISSING == 1  BLOCKED == 2  STARTED == 3  FINISHED == 4
Kind(r) == IF r >= 100 THEN 9 ELSE LET v == r % 16 IN CASE v \in {0, 1, 5} -> 0 [] v \in {2, 3, 4} -> 1 [] v \in {6, 7, 8} -> 2 [] v = 9 -> 3 [] OTHER -> 4
Pool(r) == IF r < 100 /\ r % 16 = 2 THEN 3 ELSE IF r < 100 /\ r % 16 = 8 THEN 2 ELSE 1
Groups(r) == IF r < 100 /\ r % 16 = 3 THEN 1 ELSE 0
Once(r) == r < 100 /\ r % 16 = 7
Limited(r) == r < 100 /\ r % 16 \in {4, 6, 7}
Put(f, x, v) == (x :> v) @@ f
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Top(q) == q[Len(q)]
Pop(q) == SubSeq(q, 1, Len(q) - 1)

InitState == [st |-> [t \in 0..20 |-> <<>>],
              tk |-> <<>>,              \* task -> [r, ph: 1 created 2 started 3 finished 4 reported 9 never runs, c: its creation, x: threw]
              last |-> [t \in 0..20 |-> 0],   \* time of the last thing the thread did
              ns |-> {},                \* messages and logs made by tasks without statistics
              lev |-> <<>>, n |-> 0,    \* 1 some N is being emitted, 2 some N has been emitted
              lg |-> <<>>,              \* log -> record
              due |-> {}, odue |-> {}]  \* statistics and observations still to come
Frame(f, k, r, p, s, m, rem) == [f |-> f, k |-> k, r |-> r, p |-> p, s |-> s, m |-> m, rem |-> rem, ph |-> 0, x |-> 0]

RECURSIVE TopTask(_)
TopTask(q) == IF q = <<>> THEN Frame("T", 0, -1, 0, TRUE, 0, {}) ELSE IF Top(q).f = "T" THEN Top(q) ELSE TopTask(Pop(q))
Bound(cfg, k) == {r \in cfg.inst : Kind(r) = k}
Handlers(cfg) == (IF cfg.flags % 2 = 1 THEN {100} ELSE {}) \cup (IF (cfg.flags \div 2) % 2 = 1 THEN {101} ELSE {}) \cup (IF (cfg.flags \div 4) % 2 = 1 THEN {102} ELSE {})
Level(cfg, s, k) == IF k = -1 THEN <<0, 0>> ELSE At(s.lev, k, cfg.lev[k + 1])
\* the reactor which a log counts as coming from
From(s, t, k) == IF k >= 0 THEN k ELSE LET r == TopTask(s.st[t]).r IN IF r < 0 THEN -1 ELSE IF r >= 100 THEN 3 ELSE r \div 16

\* an event of type EV: <<EV, t, y, k, r, ct, cr, tp, ng, c, s, f, x, v>> with c, s, f of the form <<thread, pool, nuclear time, real time>>
MakeFails(cfg, s, e) ==
  LET t == e[2]  y == e[3]  k == e[4]  r == e[5]  q == s.st[t]  by == TopTask(q)  c == e[10]
  IN (IF ~by.s THEN {"P20:an observer caused an event"} ELSE {})
     \cup (IF k \in DOMAIN s.tk THEN {"P20:created twice"} ELSE {})
     \cup (IF q = <<>> \/ Top(q).f = "T" \/ r \notin Top(q).rem THEN {"P20:task from nowhere"} ELSE {})
     \cup (IF e[6] # by.k \/ e[7] # by.r THEN {"P20:wrong cause"} ELSE {})
     \cup (IF e[8] # Pool(r) \/ e[9] # Groups(r) THEN {"P20:wrong target"} ELSE {})
     \cup (IF c[1] # t \/ c[2] # by.p THEN {"P20:wrong creating thread"} ELSE {})
     \cup (IF \E j \in {3, 4} : c[j] < s.last[t] \/ c[j] > e[14] THEN {"P20:wrong creation time"} ELSE {})
     \cup (IF y = BLOCKED /\ ~Limited(r) THEN {"P20:blocked for no reason"} ELSE {})
     \cup (IF y = MISSING /\ ~(r % 16 = 5 /\ q # <<>> /\ Top(q).x < 2) THEN {"P20:missing data that was there"} ELSE {})
     \cup (IF y = CREATED /\ r < 100 /\ r % 16 = 5 /\ s.n = 0 THEN {"P20:created without data"} ELSE {})
StartPool(s, t, r) == IF s.st[t] # <<>> THEN TopTask(s.st[t]).p ELSE Pool(r)
EvFails(cfg, s, e) ==
  LET t == e[2]  y == e[3]  k == e[4]  r == e[5]  q == s.st[t] IN
  IF r < 0 THEN {"P20:wrong reaction"}
  ELSE IF y \in {CREATED, MISSING, BLOCKED} THEN MakeFails(cfg, s, e)
  ELSE IF k \notin DOMAIN s.tk THEN {"P20:event of an unknown task"}
  ELSE (IF s.tk[k].r # r THEN {"P20:wrong reaction"} ELSE {})
       \cup (IF e[6] # s.tk[k].ct \/ e[7] # s.tk[k].cr \/ e[10] # s.tk[k].c THEN {"P20:creation changed"} ELSE {})
       \cup (IF y = STARTED
             THEN (IF s.tk[k].ph # 1 THEN {"P20:started out of order"} ELSE {})
                  \cup (IF e[11][1] # t \/ (e[11][2] # StartPool(s, t, r)) THEN {"P20:wrong starting thread"} ELSE {})
                  \cup (IF \E j \in {3, 4} : e[11][j] < e[10][j] \/ e[11][j] < s.last[t] \/ e[11][j] > e[14] THEN {"P20:wrong starting time"} ELSE {})
             ELSE IF s.tk[k].ph # 2 \/ q = <<>> \/ Top(q).f # "T" \/ Top(q).k # k \/ Top(q).ph # 2 THEN {"P20:finished out of order"}
                  ELSE (IF e[12][1] # t \/ e[12][2] # Top(q).p THEN {"P20:wrong finishing thread"} ELSE {})
                       \cup (IF e[11] # s.tk[k].s THEN {"P20:start changed"} ELSE {})
                       \cup (IF \E j \in {3, 4} : e[12][j] < s.last[t] \/ e[12][j] > e[14] THEN {"P20:wrong finishing time"} ELSE {})
                       \cup (IF e[13] # Top(q).x THEN {"P20:wrong exception"} ELSE {}))
RunFails(s, e) ==   \* <<RUN, t, r, k, stat, m, v>>
  LET t == e[2]  r == e[3]  k == e[4]  q == s.st[t] IN
  IF e[5] = 1
  THEN IF q = <<>> \/ Top(q).f # "T" \/ Top(q).k # k \/ Top(q).r # r \/ Top(q).ph # 0 THEN {"P20:ran without being reported"} ELSE {}
  ELSE IF e[6] \in s.ns \/ (r >= 100 /\ s.ns # {}) THEN {} ELSE {"P20:task without statistics"}
GotFails(cfg, s, e) ==   \* <<GOT, t, r, m, l, d, k, stat>>
  LET m == e[4] IN
  IF m \notin DOMAIN s.lg THEN {"P27:log message from nowhere"}
  ELSE LET g == s.lg[m] IN
       (IF ~g.pass THEN {"P27:level does not pass"} ELSE {})
       \cup (IF e[3] \in g.got THEN {"P27:handled twice"} ELSE {})
       \cup (IF e[5] # g.l THEN {"P27:wrong level"} ELSE {})
       \cup (IF e[6] # g.d THEN {"P27:wrong display level"} ELSE {})
       \cup (IF e[7] # g.k THEN {"P27:wrong reactor"} ELSE {})
       \cup (IF e[8] # g.task THEN {"P27:wrong task"} ELSE {})
       \cup (IF e[3] # 102 /\ (g.over \/ e[2] # g.t) THEN {"P27:handled too late"} ELSE {})
LoggedFails(cfg, s, e) ==
  LET g == s.lg[e[3]] IN
  IF g.pass /\ ~(Handlers(cfg) \ {102}) \subseteq g.got THEN {"P27:not handled"} ELSE {}
QuietFails(cfg, s, e) ==
  (IF \E k \in DOMAIN s.tk : s.tk[k].ph \in {1, 2} THEN {"P20:task has no ending"} ELSE {})
  \cup (IF s.due # {} THEN {"P20:statistics not reported"} ELSE {})
  \cup (IF s.odue # {} THEN {"P20:event not observed"} ELSE {})
  \cup (IF 102 \in Handlers(cfg) /\ \E m \in DOMAIN s.lg : s.lg[m].pass /\ 102 \notin s.lg[m].got THEN {"P27:not handled"} ELSE {})
Fails(cfg, s, e) ==
  CASE e[1] = EV -> EvFails(cfg, s, e)
    [] e[1] = RUN -> RunFails(s, e)
    [] e[1] = EMITTED -> IF \E r \in Top(s.st[e[2]]).rem : ~Once(r) THEN {"P20:task not reported"} ELSE {}
    [] e[1] = LOGGED -> LoggedFails(cfg, s, e) \cup IF s.lg[e[3]].pass /\ Top(s.st[e[2]]).rem # {} THEN {"P20:task not reported"} ELSE {}
    [] e[1] = GOT -> GotFails(cfg, s, e)
    [] e[1] = STAT -> IF <<e[3], e[5]>> \in s.due /\ e[4] >= 0 THEN {} ELSE {"P20:wrong statistics"}
    [] e[1] = OBS -> IF <<e[3], e[4]>> \in s.odue THEN {} ELSE {"P20:observed what did not happen"}
    [] e[1] = QUIET -> QuietFails(cfg, s, e)
    [] e[1] = FIN -> IF e[2] = 1 THEN {"P20:deadlock"} ELSE IF e[2] = 2 THEN {"CRASH"} ELSE IF e[2] = 3 THEN {"HANG"} ELSE {}
    [] OTHER -> {}
--------------------------------------------------------------------------------
Push(s, t, fr) == [s EXCEPT !.st[t] = Append(@, fr)]
Observed(cfg, s, k, y) == IF (cfg.flags \div 16) % 2 = 1 THEN [s EXCEPT !.odue = @ \cup {<<k, y>>}] ELSE s
DoEv(cfg, s, e) ==
  LET t == e[2]  y == e[3]  k == e[4]  r == e[5]  q == s.st[t] IN
  Observed(cfg,
  IF y \in {CREATED, MISSING, BLOCKED}
  THEN [s EXCEPT !.tk = Put(@, k, [r |-> r, ph |-> IF y = CREATED THEN 1 ELSE 9, ct |-> e[6], cr |-> e[7], c |-> e[10], s |-> <<>>]),
                 !.st[t] = IF q # <<>> /\ Top(q).f # "T" THEN [@ EXCEPT ![Len(q)].rem = @ \ {r}] ELSE @,
                 !.last[t] = e[14]]
  ELSE IF k \notin DOMAIN s.tk THEN s
  ELSE IF y = STARTED THEN [s EXCEPT !.tk[k].ph = 2, !.tk[k].s = e[11], !.last[t] = e[14], !.st[t] = Append(@, Frame("T", k, r, StartPool(s, t, r), TRUE, 0, {}))]
  ELSE [s EXCEPT !.tk[k].ph = 3, !.st[t] = IF q # <<>> THEN Pop(@) ELSE @, !.last[t] = e[14],
                 !.due = IF (cfg.flags \div 8) % 2 = 1 THEN @ \cup {<<k, e[13]>>} ELSE @,
                 !.odue = IF (cfg.flags \div 32) % 2 = 1 THEN @ \cup {<<k, 9>>} ELSE @], k, y)
Step(cfg, s, e) ==
  CASE e[1] = EMIT -> LET t == e[2]  quiet == ~TopTask(s.st[t]).s IN
                      Push([s EXCEPT !.ns = IF quiet THEN @ \cup {e[3]} ELSE @, !.last[t] = e[5]], t, [Frame("E", 0, 0, 0, TRUE, e[3], IF quiet THEN {} ELSE Bound(cfg, e[4])) EXCEPT !.x = s.n])
    [] e[1] \in {EMITTED, LOGGED} -> LET q == s.st[e[2]] IN [s EXCEPT !.st[e[2]] = Pop(@), !.lg = IF e[1] = LOGGED THEN [@ EXCEPT ![e[3]].over = TRUE] ELSE @]
    [] e[1] = EV -> DoEv(cfg, s, e)
    [] e[1] = RUN -> LET t == e[2] IN
                     IF e[5] = 1 THEN IF s.st[t] # <<>> THEN [s EXCEPT !.st[t][Len(s.st[t])].ph = 1, !.last[t] = e[7]] ELSE s
                     ELSE Push(s, t, Frame("T", e[4], e[3], -1, FALSE, e[6], {}))
    [] e[1] = DONE -> LET t == e[2]  q == s.st[t] IN   \* <<DONE, t, r, k, x, v>>
                      IF q = <<>> THEN s
                      ELSE IF Top(q).s THEN [s EXCEPT !.st[t][Len(q)].ph = 2, !.st[t][Len(q)].x = e[5], !.last[t] = e[6]]
                      ELSE [s EXCEPT !.st[t] = Pop(@)]
    [] e[1] = STAT -> [s EXCEPT !.due = @ \ {<<e[3], e[5]>>}]
    [] e[1] = OBS -> Push([s EXCEPT !.odue = @ \ {<<e[3], e[4]>>}], e[2], Frame("T", 0, -1, -1, FALSE, 0, {}))
    [] e[1] = OBSD -> [s EXCEPT !.st[e[2]] = Pop(@)]
    [] e[1] = LOG -> LET t == e[2]  k == From(s, t, e[5])  lv == Level(cfg, s, k)  pass == e[4] >= lv[1] \/ e[4] >= lv[2]  by == TopTask(s.st[t]) IN
                     Push([s EXCEPT !.lg = Put(@, e[3], [t |-> t, l |-> e[4], k |-> k, d |-> lv[1], pass |-> pass, task |-> IF by.s THEN by.k ELSE 0, got |-> {}, over |-> FALSE]),
                                    !.ns = IF by.s THEN @ ELSE @ \cup {e[3]}],
                          t, Frame("L", 0, 0, 0, TRUE, e[3], IF pass /\ by.s THEN Handlers(cfg) ELSE {}))
    [] e[1] = GOT -> IF e[4] \in DOMAIN s.lg THEN [s EXCEPT !.lg[e[4]].got = @ \cup {e[3]}] ELSE s
    [] e[1] = LEV -> [s EXCEPT !.lev = Put(@, e[3], <<e[4], e[5]>>)]
    [] e[1] = NN -> [s EXCEPT !.n = IF e[3] > @ THEN e[3] ELSE @]
    [] e[1] = QUIET -> [s EXCEPT !.tk = <<>>, !.lg = <<>>, !.due = {}, !.odue = {}]
    [] OTHER -> s
=============================================================================
