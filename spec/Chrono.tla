------------------------------- MODULE Chrono -------------------------------
(* The clock, timers (Every, Delay), watchdogs and time travel.              *)
(* All times are microseconds.  v is the base clock and c the NUClear clock   *)
(* of an event.  A timer is a set of guesses for its next due time, each an   *)
(* interval <<l, h, i>> (i: the event it dates from): it may fire from l on   *)
(* and must have fired when everything is at rest after h.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
QUIET == 1  MADE == 2  START == 3  END == 4  BIND == 5  BOUND == 6  UNB == 7  UNBD == 8  CTL == 9  CTLD == 10
DELAY == 11  DELAYED == 12  SVC == 13  SVCD == 14  TT == 15  TTD == 16  SD == 17  OVER == 18  FIN == 19
INF == 1900000000
SLACK == 5
Inlined == {4, 5, 10}
Group(r) == CASE r \in {8, 9} -> 0 [] r = 10 -> 1 [] r \in {11, 13} -> 2 [] r = 12 -> 3 [] OTHER -> -1
Put(f, x, v) == (x :> v) @@ f
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Cap(h) == Min2(h, INF)

\* an event: <<type, a, b, x, v, c>>
A(e) == e[2]  B(e) == e[3]  X(e) == e[4]  V(e) == e[5]  C(e) == e[6]

InitState == [clk |-> [e |-> 1000000000, b |-> 0, r |-> 2],   \* epoch, base and twice the rate
              prev |-> [e |-> 0, b |-> 0, r |-> 0, sh |-> 0],   \* the clock before the last travel, until things come to rest
              tt |-> <<>>,                 \* the travel in progress: <<its event, quiet so far?, least due time>>
              tm |-> <<>>,                 \* timer -> record; dis: 0 enabled, 1 disabled, 2 being changed, 3 just disabled
              gone |-> <<>>,               \* timer -> guesses it had when unbound
              dl |-> <<>>,                 \* delayed message -> record
              run |-> {}, pool |-> 0, inl |-> 0,
              todo |-> [r \in 0..31 |-> 0],    \* tasks made and not started
              rest |-> FALSE, qv |-> 0, seen |-> 0,   \* nothing happened since all was at rest; latest clock since then
              svc |-> <<>>,                \* services in progress: group -> set of their first events
              sd |-> 0, after |-> FALSE]

Advance(k, v) == ((v - k.b) * k.r) \div 2
ClockOk(k, e) == /\ C(e) >= k.e + Advance(k, V(e)) - 3
                 /\ C(e) <= k.e + Advance(k, V(e)) + 3
NewOk(t, e) == LET hi == X(t) + ((V(e) - V(t) + 2) * B(t)) \div 2 + 3 IN
               IF A(t) = 2 THEN C(e) <= hi ELSE C(e) <= hi /\ C(e) >= X(t) - 3

(* How far a relative travel moves the timers, seen at its end *)
ShiftLo(s, t, e) == X(t) - C(t) - ((V(e) - V(t) + 2) * s.clk.r) \div 2 - 2
ShiftHi(s, t, e) == X(t) - C(t) + 2

May(s, e, g) ==    \* could the guess g have come due by this event
  LET t == s.tt
      sh == IF t # <<>> /\ A(t[1]) = 1 THEN Min2(0, ShiftLo(s, t[1], e)) ELSE 0
      old == IF t # <<>> THEN s.clk.e + Advance(s.clk, V(e)) + 3 ELSE s.prev.e + Advance(s.prev, V(e)) + 3 + s.prev.sh
  IN g[1] + sh <= C(e) + 1 \/ g[1] <= old

RECURSIVE SkipClosure(_, _, _, _)
SkipClosure(S, p, c, n) ==
  LET more == {<<g[1] + p, Cap(g[2] + p), g[3]>> : g \in {x \in S : x[1] <= c + 1}} \ S
  IN IF more = {} \/ n = 0 THEN S ELSE SkipClosure(S \cup more, p, c, n - 1)

Newest(S) == S
(* everything that passes unseen before the event e is looked at *)
Close(s, e) ==
  [s EXCEPT !.rest = @ /\ e[1] = TT /\ V(e) - s.qv < 100, !.seen = Max2(@, C(e)), !.tm = [r \in DOMAIN @ |-> IF @[r].dis > 0 /\ ~@[r].wild THEN [@[r] EXCEPT !.S = SkipClosure(@, s.tm[r].p, C(e), 400)] ELSE @[r]]]

--------------------------------------------------------------------------------
TimersLate(s, e) == {r \in DOMAIN s.tm : /\ ~s.tm[r].wild /\ ~s.tm[r].busy
                                          /\ \A g \in s.tm[r].S : g[2] <= C(e) - SLACK}
MadeFails(s, e) ==
  LET r == A(e) IN
  IF r \in DOMAIN s.tm
  THEN IF s.tm[r].wild \/ \E g \in s.tm[r].S \cup s.tm[r].old \cup At(s.gone, r, {}) : May(s, e, g)
       THEN IF s.tm[r].dis = 1 THEN {"P14:timer fired while disabled"} ELSE {}
       ELSE {IF Group(r) >= 0 THEN (IF s.tm[r].rel THEN "P18:watchdog fired early after relative travel" ELSE "P17:watchdog fired early") ELSE "P16:timer fired early"}
  ELSE IF \E g \in At(s.gone, r, {}) : May(s, e, g) THEN {} ELSE {"P16:timer fired after it was unbound"}
QuietFails(s, e) ==
  IF s.sd > 0 THEN {}
  ELSE (IF s.inl = 0
        THEN {IF Group(r) >= 0 THEN (IF s.tm[r].rel THEN "P18:watchdog late after relative travel" ELSE "P17:watchdog did not fire") ELSE "P16:timer did not fire" : r \in TimersLate(s, e)}
             \cup ({IF s.dl[m].k = 2 \/ s.pool = 0 THEN "P16:delayed message not delivered" ELSE "" :
                     m \in {x \in DOMAIN s.dl : ~s.dl[x].ran /\ ~s.dl[x].wild /\ s.dl[x].h <= C(e) - SLACK}} \ {""})
        ELSE {})
       \cup (IF s.pool = 0 /\ s.inl = 0 /\ \E r \in 0..31 : s.todo[r] > 0 THEN {"P16:task made but not run"} ELSE {})
StartFails(s, e) ==
  IF B(e) = 0 THEN (IF s.todo[A(e)] <= 0 THEN {"P16:ran more often than it fired"} ELSE {})
  ELSE IF A(e) \notin DOMAIN s.dl THEN {"P16:delayed message from nowhere"}
  ELSE LET d == s.dl[A(e)] IN
       (IF d.ran THEN {"P16:delayed message delivered twice"} ELSE {})
       \cup (IF ~d.wild /\ ~May(s, e, <<d.l, d.h, 0>>) /\ d.l > s.seen + 5 THEN {"P16:delayed message early"} ELSE {})
TtdFails(s, e) ==
  LET t == s.tt[1] IN
  (IF ~NewOk(t, e) THEN {"P18:clock not at the requested time"} ELSE {})
  \cup (IF A(t) = 2
        THEN LET due == {s.tm[r].S : r \in {x \in DOMAIN s.tm : ~s.tm[x].wild /\ ~s.tm[x].busy /\ s.tm[x].dis = 0 /\ ~s.tm[x].un /\ s.tm[x].at < s.tt[4]}}
                 his == {SetMax({g[2] : g \in S}) : S \in due} \cup {s.dl[m].h : m \in {x \in DOMAIN s.dl : ~s.dl[x].ran /\ ~s.dl[x].wild /\ s.dl[x].l > s.tt[5] + 1}}
                 spent == ((V(e) - V(t) + 2) * B(t)) \div 2 + 3
             IN (IF his # {} /\ C(e) > SetMin(his) + spent THEN {"P18:nearest travel passed a timer"} ELSE {})
                \cup (IF s.tt[2] /\ C(e) < Min2(X(t), s.tt[3]) - 3 THEN {"P18:nearest travel stopped early"} ELSE {})
        ELSE {})
Fails(s0, e) ==
  IF e[1] = FIN THEN (IF A(e) = 1 THEN {"P16:deadlock"} ELSE IF A(e) = 2 THEN {"CRASH"} ELSE IF A(e) = 3 THEN {"HANG"} ELSE {})
  ELSE LET s == Close(s0, e) IN
  (IF s.tt = <<>> THEN (IF ClockOk(s.clk, e) THEN {} ELSE {"P18:clock does not read as it should"})
   ELSE IF ClockOk(s.clk, e) \/ NewOk(s.tt[1], e) THEN {} ELSE {"P18:clock does not read as it should"})
  \cup
  CASE e[1] = MADE -> MadeFails(s, e)
    [] e[1] = QUIET -> QuietFails(s, e)
    [] e[1] = START -> StartFails(s, e)
    [] e[1] = SVCD -> IF B(e) = 1 /\ \E r \in DOMAIN s.tm : Group(r) = A(e) /\ ~s.tm[r].busy /\ ~s.tm[r].un /\ s.tm[r].at < (IF A(e) \in DOMAIN s.svc THEN SetMin({g[1] : g \in s.svc[A(e)]}) ELSE 0)
                      THEN {"P17:service of a bound watchdog refused"} ELSE {}
    [] e[1] = TTD -> TtdFails(s, e) \cup (IF V(e) - V(s.tt[1]) > 1000 THEN {"P18:time travel had to wait"} ELSE {})
    [] e[1] = DELAYED -> IF V(e) - s.dl[A(e)].v0 > 1000 THEN {"P16:delayed emit had to wait"} ELSE {}
    [] e[1] = BOUND -> IF V(e) - s.tm[A(e)].v0 > 1000 THEN {"P16:adding a timer had to wait"} ELSE {}
    [] e[1] = OVER -> IF ~s.after /\ V(e) - s.sd > 2000 THEN {"P09:shutdown waited for a timer"} ELSE {}
    [] OTHER -> {}

--------------------------------------------------------------------------------
DoMade(s0, e) ==
  LET r == A(e)  s == [s0 EXCEPT !.todo[r] = @ + 1] IN
  IF r \notin DOMAIN s.tm THEN [s EXCEPT !.gone = Put(@, r, {})]
  ELSE LET T == s.tm[r]
           fs == {g \in T.S : May(s, e, g)}
           fo == {g \in T.old : May(s, e, g)}
           nx(G) == {<<g[1] + T.p, Cap(g[2] + T.p), g[3]>> : g \in G}
       IN IF fs = {} /\ fo = {} /\ At(s.gone, r, {}) # {} THEN [s EXCEPT !.gone = Put(@, r, {})]
          ELSE [s EXCEPT !.tm[r].S = nx(fs) \cup (IF fo # {} THEN T.S \cup nx(fo) ELSE {})
                                     \cup (IF fs = {} /\ fo = {} THEN T.S ELSE {})
                                     \cup (IF At(s.gone, r, {}) # {} THEN T.S ELSE {})]
DoQuiet(s, e) ==
  LET free == s.inl = 0 IN
  [s EXCEPT !.rest = TRUE, !.qv = V(e), !.seen = IF s.pool = 0 /\ free THEN 0 ELSE @, !.gone = IF free THEN <<>> ELSE @,
            !.prev = [e |-> 0, b |-> 0, r |-> 0, sh |-> 0],
            !.tm = [r \in DOMAIN @ |-> IF @[r].wild \/ @[r].busy \/ ~free THEN @[r]
                      ELSE LET G == {g \in @[r].S : g[2] > C(e) - SLACK} IN
                           [@[r] EXCEPT !.S = IF G = {} THEN {<<C(e) + 1, INF, 0>>} ELSE G, !.old = {}, !.wild = (G = {}), !.dis = IF @ = 3 THEN 1 ELSE @]]]
DoStart(s, e) ==
  LET inline == IF B(e) = 0 THEN A(e) \in Inlined ELSE B(e) = 2
      s1 == [s EXCEPT !.pool = IF inline THEN @ ELSE @ + 1, !.inl = IF inline THEN @ + 1 ELSE @, !.after = @ \/ s.sd > 0]
  IN IF B(e) = 0 THEN [s1 EXCEPT !.todo[A(e)] = @ - 1] ELSE [s1 EXCEPT !.dl[A(e)].ran = TRUE]
DoEnd(s, e) ==
  LET inline == IF B(e) = 0 THEN A(e) \in Inlined ELSE B(e) = 2
  IN [s EXCEPT !.pool = IF inline THEN @ ELSE @ - 1, !.inl = IF inline THEN @ - 1 ELSE @]
Odd(s, r) == s.tt # <<>> \/ (Group(r) \in DOMAIN s.svc /\ s.svc[Group(r)] # {})
Spoil(s) == IF s.tt = <<>> THEN s ELSE [s EXCEPT !.tt[2] = FALSE]
DoBind(s, e, i) ==
  LET r == A(e) IN
  Spoil([s EXCEPT !.tm = Put(@, r, [p |-> X(e), S |-> {<<C(e) + X(e), INF, i>>}, old |-> {}, wild |-> Odd(s, r), busy |-> TRUE, un |-> FALSE,
                                    dis |-> 0, at |-> i, rel |-> FALSE, c0 |-> C(e), v0 |-> V(e)])])
DoBound(s, e, i) ==
  LET r == A(e)  d == C(e) - s.tm[r].c0 + 2 IN
  [s EXCEPT !.tm[r].busy = FALSE, !.tm[r].at = i, !.tm[r].wild = @ \/ Odd(s, r), !.tm[r].S = {<<g[1], g[1] + d, g[3]>> : g \in @}]
DoUnbd(s, e) == LET r == A(e) IN [s EXCEPT !.tm = Del(@, {r}), !.gone = Put(@, r, At(@, r, {}) \cup s.tm[r].S \cup s.tm[r].old \cup IF s.tm[r].wild THEN {<<0, INF, 0>>} ELSE {})]
DoDelay(s, e) ==
  Spoil([s EXCEPT !.dl = Put(@, A(e), [l |-> IF B(e) = 1 THEN X(e) ELSE C(e) + X(e), h |-> INF, ran |-> FALSE, wild |-> s.tt # <<>>, k |-> 0, c0 |-> C(e), v0 |-> V(e), abs |-> B(e)])])
DoDelayed(s, e) ==
  LET d == s.dl[A(e)] IN
  [s EXCEPT !.dl[A(e)].h = IF d.abs = 1 THEN d.l + 1 ELSE d.l + C(e) - d.c0 + 2, !.dl[A(e)].wild = @ \/ s.tt # <<>>, !.dl[A(e)].k = X(e)]
Members(s, g) == {r \in DOMAIN s.tm : Group(r) = g}
DoSvc(s, e, i) ==
  LET g == A(e) IN
  Spoil([s EXCEPT !.svc = Put(@, g, At(@, g, {}) \cup {<<i, C(e)>>}),
            !.tm = [r \in DOMAIN @ |-> IF Group(r) = g THEN [@[r] EXCEPT !.S = @ \cup {<<C(e) + s.tm[r].p, INF, i>>}, !.wild = @ \/ s.tt # <<>> \/ s.tm[r].busy] ELSE @[r]]])
DoSvcd(s, e, i0) ==
  LET g == A(e)
      me == CHOOSE x \in s.svc[g] : x[1] = i0
      new(r) == <<me[2] + s.tm[r].p, C(e) + s.tm[r].p + 2, me[1]>>
  IN [s EXCEPT !.svc[g] = @ \ {me},
            !.tm = [r \in DOMAIN @ |->
               IF Group(r) # g THEN @[r]
               ELSE IF B(e) = 1 THEN [@[r] EXCEPT !.S = IF {x \in @ : x[3] # me[1]} = {} THEN @ ELSE {x \in @ : x[3] # me[1]}, !.wild = TRUE]
               ELSE LET keep == {x \in @[r].S : x[3] > me[1]} IN
                    [@[r] EXCEPT !.S = keep \cup {new(r)}, !.old = @ \cup {x \in s.tm[r].S : x[3] < me[1]}, !.wild = @ \/ s.tt # <<>>]]]
DoTt(s, e, i) ==
  LET guesses == UNION {s.tm[r].S \cup s.tm[r].old : r \in DOMAIN s.tm} \cup {<<s.dl[m].l, 0, 0>> : m \in {x \in DOMAIN s.dl : ~s.dl[x].ran}}
      calm == /\ s.inl = 0 /\ s.rest
              /\ \A r \in DOMAIN s.tm : ~s.tm[r].wild /\ ~s.tm[r].busy /\ Group(r) = -1
              /\ \A m \in DOMAIN s.dl : s.dl[m].ran \/ (~s.dl[m].wild /\ s.dl[m].h < INF)
  IN [s EXCEPT !.tt = <<e, calm, IF guesses = {} THEN INF ELSE SetMin({g[1] : g \in guesses}), i, s.seen>>,
            !.tm = [r \in DOMAIN @ |-> [@[r] EXCEPT !.wild = @ \/ s.tm[r].busy \/ (Group(r) \in DOMAIN s.svc /\ s.svc[Group(r)] # {})
                                                        \/ (Group(r) >= 0 /\ (IF A(e) = 1 THEN ~s.rest ELSE X(e) < C(e)))]],
            !.dl = [m \in DOMAIN @ |-> [@[m] EXCEPT !.wild = @ \/ s.dl[m].h >= INF]]]
DoTtd(s, e) ==
  LET t == s.tt[1]
      lo == ShiftLo(s, t, e)  hi == ShiftHi(s, t, e)
      mv(G) == {<<g[1] + lo, Cap(g[2] + hi), g[3]>> : g \in G}
      s1 == [s EXCEPT !.clk = [e |-> C(e), b |-> V(e), r |-> B(t)], !.tt = <<>>, !.prev = s.clk @@ [sh |-> IF A(t) = 1 THEN hi ELSE 0]]
  IN IF A(t) # 1 THEN s1
     ELSE [s1 EXCEPT !.tm = [r \in DOMAIN @ |-> [@[r] EXCEPT !.S = mv(@), !.old = mv(@), !.rel = TRUE]],
                     !.gone = [r \in DOMAIN @ |-> mv(@[r])],
                     !.dl = [m \in DOMAIN @ |-> [@[m] EXCEPT !.l = @ + lo, !.h = Cap(@ + hi)]]]
Step(s0, e, i) ==
  IF e[1] = FIN THEN s0 ELSE
  LET s == Close(s0, e) IN
  CASE e[1] = QUIET -> DoQuiet(s, e)
    [] e[1] = MADE -> DoMade(s, e)
    [] e[1] = START -> DoStart(s, e)
    [] e[1] = END -> DoEnd(s, e)
    [] e[1] = BIND -> DoBind(s, e, i)
    [] e[1] = BOUND -> DoBound(s, e, i)
    [] e[1] = UNB -> [s EXCEPT !.tm[A(e)].un = TRUE]
    [] e[1] = UNBD -> DoUnbd(s, e)
    [] e[1] = CTL -> [s EXCEPT !.tm[A(e)].dis = 2]
    [] e[1] = CTLD -> [s EXCEPT !.tm[A(e)].dis = IF B(e) = 1 THEN 0 ELSE 3]
    [] e[1] = DELAY -> DoDelay(s, e)
    [] e[1] = DELAYED -> DoDelayed(s, e)
    [] e[1] = SVC -> DoSvc(s, e, i)
    [] e[1] = SVCD -> DoSvcd(s, e, X(e))
    [] e[1] = TT -> DoTt(s, e, i)
    [] e[1] = TTD -> DoTtd(s, e)
    [] e[1] = SD -> [s EXCEPT !.sd = V(e), !.after = s.pool > 0 \/ s.inl > 0]
    [] OTHER -> s
=============================================================================
