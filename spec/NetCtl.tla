-------------------------------- MODULE NetCtl --------------------------------
(* A power plant with the network controller, as its reactions and the peers  *)
(* around it see it: announcing and membership (P22), which reactions get a   *)
(* message and where emitted messages go (P25), and that nothing that arrives *)
(* stops it (P26).  Times are in units of 0.1 ms.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
OPEN == 1  RX == 2  TX == 3  JOIN == 4  LEAVE == 5  RUN == 6  BIND == 7  BOUND == 8  UNB == 9  UNBD == 10  CTL == 11  CTLD == 12  EMIT == 13  CONF == 14  QUIET == 15  SD == 16  OVER == 17  BLOCK == 18  FIN == 99
ANNOUNCE == 1  GOODBYE == 2  DATA == 3  AGAIN == 4
PERIOD == 5000  TIMEOUT == 20000  SLACK == 200
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
TypeOf(r) == CASE r \in {0, 1, 4} -> 0 [] r \in {2, 5} -> 1 [] OTHER -> 2
Fits(ty, l) == CASE ty = 0 -> l = 8 [] ty = 1 -> l = 12 [] ty = 2 -> TRUE [] OTHER -> FALSE
InitState == [conf |-> FALSE, name |-> <<>>, next |-> <<>>, confing |-> FALSE, ann |-> 0,
              peers |-> <<>>,    \* address -> [name, t]
              due |-> <<>>,      \* thread -> what it has to report
              left |-> {},
              sure |-> {}, maybe |-> {},   \* reactions that are bound and enabled, and those that might be
              msg |-> <<>>,      \* first byte -> message that arrived
              seen |-> {},       \* <<address, id>> of reliable messages
              cur |-> <<>>,      \* thread -> message it read last
              out |-> <<>>,      \* first byte -> message that was emitted
              sd |-> FALSE, bye |-> FALSE]
Msg(s, m) == s.msg[m]
Rx(s, e) ==   \* <<RX, t, th, sock, k, a, ty, id, rel, d>>
  LET t == e[2]  th == e[3]  k == e[5]  a == e[6]  d == e[10]
      s1 == [s EXCEPT !.due = Put(@, th, <<>>), !.cur = Put(@, th, 0), !.peers = IF a \in DOMAIN @ THEN [@ EXCEPT ![a].t = t] ELSE @]
  IN IF a \in {0, 100} THEN s1   \* its own announcements
     ELSE IF k = ANNOUNCE /\ a \notin DOMAIN s.peers THEN [s1 EXCEPT !.due = Put(@, th, <<JOIN, a, d>>)]
     ELSE IF a \notin DOMAIN s.peers THEN s1
     ELSE IF k = GOODBYE THEN [s1 EXCEPT !.due = Put(@, th, <<LEAVE, a>>)]
     ELSE IF k \notin {DATA, AGAIN} THEN s1
     ELSE LET m == IF d = <<>> THEN 0 ELSE d[1]
              again == e[9] # 0 /\ <<a, e[8]>> \in s.seen
              rs == {r \in 0..5 : TypeOf(r) = e[7] /\ Fits(e[7], Len(d))}
              x == At(s.msg, m, [ty |-> e[7], a |-> a, name |-> s.peers[a].name, rel |-> e[9], d |-> d, lo |-> [r \in 0..5 |-> 0], hi |-> [r \in 0..5 |-> 0], ran |-> [r \in 0..5 |-> 0]])
              y == IF again THEN x ELSE [x EXCEPT !.lo = [r \in 0..5 |-> @[r] + (IF r \in rs \cap s.sure THEN 1 ELSE 0)], !.hi = [r \in 0..5 |-> @[r] + (IF r \in rs \cap s.maybe THEN 1 ELSE 0)]]
          IN [s1 EXCEPT !.msg = Put(@, m, y), !.seen = IF e[9] # 0 THEN @ \cup {<<a, e[8]>>} ELSE @, !.cur = Put(@, th, IF again THEN 0 ELSE m)]
DueFails(s, th) == LET d == At(s.due, th, <<>>) IN IF d = <<>> THEN {} ELSE IF d[1] = JOIN THEN {"P22:newcomer not noticed"} ELSE {"P22:goodbye not noticed"}
RxFails(s, e) == DueFails(s, e[3])
JoinFails(s, e) == LET d == At(s.due, e[3], <<>>) IN
  IF e[4] = 100 THEN {} ELSE (IF d = <<>> \/ d[1] # JOIN \/ d[2] # e[4] THEN {"P22:joined without a reason"} ELSE IF d[3] # e[5] THEN {"P22:joined under a wrong name"} ELSE {}) \cup (IF e[4] \in DOMAIN s.peers THEN {"P22:joined twice"} ELSE {})
Join(s, e) == IF e[4] = 100 THEN s ELSE [s EXCEPT !.due = Put(@, e[3], <<>>), !.peers = Put(@, e[4], [name |-> e[5], t |-> e[2]])]
LeaveFails(s, e) == LET d == At(s.due, e[3], <<>>)  a == e[4] IN
  IF a = 100 THEN {} ELSE
  IF a \notin DOMAIN s.peers THEN {"P22:left without having joined"}
  ELSE (IF ~((d # <<>> /\ d[1] = LEAVE /\ d[2] = a) \/ e[2] - s.peers[a].t > TIMEOUT - 20) THEN {"P22:left without a reason"} ELSE {}) \cup (IF e[5] # s.peers[a].name THEN {"P22:left under a wrong name"} ELSE {})
NoPeers(s, as) == [s EXCEPT !.peers = [x \in DOMAIN @ \ as |-> @[x]], !.out = [m \in DOMAIN @ |-> [@[m] EXCEPT !.must = @ \ as]], !.left = @ \cup as, !.seen = {z \in @ : z[1] \notin as}]
Leave(s, e) == [NoPeers(s, {e[4]}) EXCEPT !.due = IF At(@, e[3], <<>>) # <<>> /\ @[e[3]][1] = LEAVE THEN Put(@, e[3], <<>>) ELSE @]
RunFails(s, e) ==   \* <<RUN, t, th, r, a, name, rel, d>>
  LET r == e[4]  d == e[8]  m == IF d = <<>> THEN 0 ELSE d[1] IN
  IF m \notin DOMAIN s.msg THEN {"P25:ran for a message that did not arrive"}
  ELSE LET x == s.msg[m] IN
       (IF x.d # d \/ x.ty # TypeOf(r) THEN {"P25:not the message that arrived"} ELSE {})
       \cup (IF x.a # e[5] \/ x.name # e[6] \/ (x.rel # 0) # (e[7] # 0) THEN {"P25:wrong source"} ELSE {})
       \cup (IF x.ran[r] >= x.hi[r] THEN {IF x.hi[r] = 0 THEN "P25:reaction that is not bound ran" ELSE "P25:ran twice for a message"} ELSE {})
Run(s, e) == LET m == IF e[8] = <<>> THEN 0 ELSE e[8][1] IN IF m \notin DOMAIN s.msg THEN s ELSE [s EXCEPT !.msg[m].ran[e[4]] = @ + 1]
\* reaction r might be interested from now on: in what is being read right now as well
Begin(s, r) == [s EXCEPT !.maybe = @ \cup {r},
                         !.msg = [m \in DOMAIN @ |-> IF @[m].ty = TypeOf(r) /\ r \notin s.maybe /\ \E th \in DOMAIN s.cur : s.cur[th] = m THEN [@[m] EXCEPT !.hi[r] = @ + 1] ELSE @[m]]]
Cease(s, r) == [s EXCEPT !.sure = @ \ {r}, !.msg = [m \in DOMAIN @ |-> [@[m] EXCEPT !.lo[r] = IF @ < s.msg[m].ran[r] THEN @ ELSE s.msg[m].ran[r]]]]
TxFails(s, e) ==   \* <<TX, t, th, sock, k, a, ty, id, rel, d>>
  LET k == e[5]  a == e[6]  d == e[10] IN
  IF k = ANNOUNCE THEN (IF d # s.name THEN {"P22:announced a wrong name"} ELSE {})
  ELSE IF k = GOODBYE THEN (IF a # 0 THEN {"P22:goodbye to a single node"} ELSE {})
  ELSE IF k \notin {DATA, AGAIN} THEN {}
  ELSE LET m == IF d = <<>> THEN 0 ELSE d[1] IN
       IF m \notin DOMAIN s.out THEN {"P25:sent what was not emitted"}
       ELSE LET x == s.out[m] IN
            (IF x.ty # e[7] \/ x.d # d \/ (x.rel # 0) # (e[9] # 0) THEN {"P25:not the message that was emitted"} ELSE {})
            \cup (IF k = AGAIN /\ x.rel = 0 THEN {"P23:repeated an unreliable message"} ELSE {})
            \cup (IF k = DATA /\ a \in x.dests THEN {"P25:sent twice"} ELSE {})
            \cup (IF k = DATA /\ x.to = <<>> /\ a # 0 THEN {"P25:not sent to all"} ELSE {})
            \cup (IF x.to # <<>> /\ ~(a \in DOMAIN s.peers /\ s.peers[a].name = x.to) /\ a \notin s.left \cup {100} THEN {"P25:sent to a node that is not named"} ELSE {})
Tx(s, e) ==
  LET k == e[5]  a == e[6]  d == e[10]  m == IF d = <<>> THEN 0 ELSE d[1] IN
  IF k = ANNOUNCE THEN [s EXCEPT !.ann = IF a = 0 THEN e[2] ELSE @]
  ELSE IF k = GOODBYE THEN [s EXCEPT !.bye = TRUE]
  ELSE IF k \in {DATA, AGAIN} /\ m \in DOMAIN s.out THEN [s EXCEPT !.out[m].dests = @ \cup {a}] ELSE s
Emit(s, e) ==   \* <<EMIT, t, th, ty, to, rel, d>>
  [s EXCEPT !.out = Put(@, e[7][1], [ty |-> e[4], to |-> e[5], rel |-> e[6], d |-> e[7], dests |-> {},
     must |-> IF ~s.conf \/ s.confing THEN {} ELSE IF e[5] = <<>> THEN {0} ELSE {a \in DOMAIN s.peers : s.peers[a].name = e[5]}])]
QuietFails(s, e) ==
  (IF \E m \in DOMAIN s.msg : \E r \in 0..5 : s.msg[m].ran[r] < s.msg[m].lo[r] THEN {"P25:reaction did not get the message"} ELSE {})
  \cup (IF \E m \in DOMAIN s.out : ~(s.out[m].must \subseteq s.out[m].dests) THEN {"P25:not sent"} ELSE {})
  \cup (IF \E a \in DOMAIN s.peers : e[2] - s.peers[a].t > TIMEOUT + 6000 THEN {"P22:silent node kept"} ELSE {})
  \cup UNION {DueFails(s, th) : th \in DOMAIN s.due}
Fails(cfg, s, e) ==
  LET k == e[1] IN
  (IF k # FIN /\ s.conf /\ ~s.sd /\ ~(k = TX /\ e[5] = ANNOUNCE) /\ e[2] - s.ann > PERIOD + SLACK THEN {"P22:not announced"} ELSE {}) \cup
  CASE k = RX -> RxFails(s, e)
    [] k = TX -> TxFails(s, e)
    [] k = JOIN -> JoinFails(s, e)
    [] k = LEAVE -> LeaveFails(s, e)
    [] k = RUN -> RunFails(s, e)
    [] k = QUIET -> QuietFails(s, e)
    [] k = OVER -> (IF s.conf /\ ~s.bye THEN {"P22:left without a goodbye"} ELSE {})
    [] k = BLOCK -> {"P26:blocked reading a socket"}
    [] k = FIN -> (CASE e[2] = 0 -> {} [] e[2] = 2 -> {"CRASH"} [] OTHER -> {"HANG"})
    [] OTHER -> {}
Step(cfg, s0, e) ==
  LET k == e[1]
      s == IF k # FIN /\ s0.conf /\ ~s0.sd /\ e[2] - s0.ann > PERIOD + SLACK THEN [s0 EXCEPT !.ann = e[2]] ELSE s0
  IN CASE k = OPEN -> [NoPeers(s, DOMAIN s.peers) EXCEPT !.conf = TRUE, !.confing = Len(s.next) > 1, !.name = IF s.next = <<>> THEN @ ELSE Head(s.next), !.next = IF @ = <<>> THEN @ ELSE Tail(@), !.ann = e[2] - PERIOD, !.bye = FALSE, !.seen = {},
                             !.out = [m \in DOMAIN @ |-> [@[m] EXCEPT !.must = {}]], !.left = @ \cup DOMAIN s.peers, !.due = <<>>]
       [] k = RX -> Rx(s, e)
       [] k = TX -> Tx(s, e)
       [] k = JOIN -> Join(s, e)
       [] k = LEAVE -> Leave(s, e)
       [] k = RUN -> Run(s, e)
       [] k = BIND -> Begin(s, e[4])
       [] k = BOUND -> [s EXCEPT !.sure = @ \cup {e[4]}]
       [] k = UNB -> Cease(s, e[4])
       [] k = UNBD -> [s EXCEPT !.maybe = @ \ {e[4]}]
       [] k = CTL -> (IF e[5] = 1 THEN Begin(s, e[4]) ELSE Cease(s, e[4]))
       [] k = CTLD -> (IF e[5] = 1 THEN [s EXCEPT !.sure = @ \cup {e[4]}] ELSE [s EXCEPT !.maybe = @ \ {e[4]}])
       [] k = EMIT -> Emit(s, e)
       [] k = CONF -> [s EXCEPT !.next = Append(@, e[4]), !.confing = TRUE, !.out = [m \in DOMAIN @ |-> [@[m] EXCEPT !.must = {}]]]
       [] k = SD -> [s EXCEPT !.sd = TRUE]
       [] OTHER -> s
=============================================================================
