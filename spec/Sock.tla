--------------------------------- MODULE Sock ---------------------------------
(* UDP and TCP reactions and what is sent to their sockets (P30).             *)
(* Addresses are numbers: 1 127.0.0.1, 2 ::1, 3 the address of the other       *)
(* interface, 4 its broadcast address, 5 255.255.255.255, 6 and 7 multicast    *)
(* groups, 8 any.  Kinds of reactions: 0 unicast, 1 broadcast, 2 and 3         *)
(* multicast (groups 6 and 7), 4 TCP, 5 TCP together with something that      *)
(* triggers it as well and that it needs.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NET == 0  BIND == 1  BOUND == 2  NOBIND == 3  UNB == 4  UNBD == 5  SEND == 6  RUN == 7  CONN == 8  CRUN == 9  ALIVE == 10  ECHO == 11  QUIET == 12  OVER == 13  FIN == 99
Put(f, x, v) == (x :> v) @@ f
\* i: instance -> kind, address it is bound to, port, whether it surely/possibly is bound.   m: message or connection -> who must/may get it
InitState == [i |-> <<>>, m |-> <<>>]
\* does a reaction receive what is sent to address a
Takes(x, a) ==
  CASE x.kind = 0 -> a \in {1, 2, 3} /\ (IF x.addr = 8 THEN a # 2 ELSE a = x.addr)
    [] x.kind = 1 -> a \in {4, 5} /\ x.addr = 8
    [] x.kind = 2 -> a = 6
    [] x.kind = 3 -> a = 7
    [] OTHER -> IF x.addr = 8 THEN a \in {1, 3} ELSE a = x.addr
Targets(s, tcp, a, port, known) == {j \in DOMAIN s.i : (s.i[j].kind >= 4) = tcp /\ Takes(s.i[j], a) /\ IF known THEN s.i[j].sure /\ s.i[j].kind # 5 /\ s.i[j].port = port ELSE s.i[j].maybe /\ s.i[j].port \in {0, port}}
Send(s, e) ==   \* <<SEND, id, to, port, size, from, from port or 0, whether it cannot have been dropped, whether it was sent>>
  [s EXCEPT !.m = Put(@, e[2], [tcp |-> FALSE, to |-> e[3], port |-> e[4], size |-> e[5], from |-> e[6], fport |-> e[7], got |-> {}, echo |-> FALSE,
     must |-> IF e[8] = 1 /\ e[9] = 1 THEN Targets(s, FALSE, e[3], e[4], TRUE) ELSE {}, may |-> Targets(s, FALSE, e[3], e[4], FALSE)])]
SendFails(s, e) == IF e[9] = 0 THEN {"P30:could not be sent"} ELSE {}
Conn(s, e) ==   \* <<CONN, id, to, port, from port, whether it was established>>
  [s EXCEPT !.m = Put(@, e[2], [tcp |-> TRUE, to |-> e[3], port |-> e[4], size |-> 0, from |-> e[3], fport |-> e[5], got |-> {}, echo |-> FALSE,
     must |-> IF e[6] = 1 THEN Targets(s, TRUE, e[3], e[4], TRUE) ELSE {}, may |-> Targets(s, TRUE, e[3], e[4], FALSE)])]
ConnFails(s, e) ==
  (IF e[6] = 0 /\ Targets(s, TRUE, e[3], e[4], TRUE) # {} THEN {"P30:connection refused by a bound reaction"} ELSE {})
  \cup (IF e[6] = 1 /\ Targets(s, TRUE, e[3], e[4], FALSE) = {} THEN {"P30:connection accepted after unbinding"} ELSE {})
BoundFails(s, e) ==   \* <<BOUND, instance, port it returned, port it has, whether it listens>>
  LET x == s.i[e[2]] IN
  (IF e[3] # e[4] \/ e[3] = 0 \/ (x.port # 0 /\ x.port # e[3]) THEN {"P30:not the port it is bound to"} ELSE {})
  \cup (IF e[5] = 0 THEN {"P30:not listening"} ELSE {})
  \cup (IF x.port = 0 /\ \E j \in DOMAIN s.i : j # e[2] /\ s.i[j].sure /\ s.i[j].port = e[3] /\ (s.i[j].kind >= 4) = (x.kind >= 4) /\ (s.i[j].addr = 2) = (x.addr = 2)
        THEN {"P30:given a port that is in use"} ELSE {})
Common(s, e, tcp) ==   \* <<_, instance, id, ..>>
  LET x == s.i[e[2]]  m == s.m[e[3]] IN
  IF e[3] \notin DOMAIN s.m \/ m.tcp # tcp THEN {"P30:nobody sent this"}
  ELSE (IF e[2] \in m.got THEN {"P30:received twice"} ELSE {})
       \cup (IF e[2] \notin m.may THEN {"P30:received by a reaction it was not sent to"} ELSE {})
From(m, e, la, lp, ra, rp) ==
  (IF la # m.to \/ lp # m.port THEN {"P30:wrong local address"} ELSE {})
  \cup (IF ra # m.from \/ (m.fport # 0 /\ rp # m.fport) THEN {"P30:wrong remote address"} ELSE {})
RunFails(s, e) ==   \* <<RUN, instance, id, size, content as sent, local address, port, remote address, port, valid>>
  LET m == s.m[e[3]] IN
  Common(s, e, FALSE) \cup (IF e[3] \notin DOMAIN s.m THEN {} ELSE
    (IF e[4] # m.size \/ e[5] = 0 THEN {"P30:payload changed"} ELSE {}) \cup From(m, e, e[6], e[7], e[8], e[9]))
  \cup (IF e[10] = 0 THEN {"P30:ran with an invalid packet"} ELSE {})
CRunFails(s, e) ==   \* <<CRUN, instance, id, works, local address, port, remote address, port, valid>>
  LET m == s.m[e[3]] IN
  (IF e[9] = 0 THEN {"P30:ran with an invalid connection"} ELSE {})
  \cup Common(s, e, TRUE) \cup (IF e[3] \notin DOMAIN s.m THEN {} ELSE
    (IF e[4] = 0 THEN {"P30:the descriptor does not work"} ELSE {}) \cup From(m, e, e[5], e[6], e[7], e[8]))
Got(s, e) == IF e[3] \in DOMAIN s.m THEN [s EXCEPT !.m[e[3]].got = @ \cup {e[2]}] ELSE s
QuietFails(s) ==
  UNION {LET m == s.m[k] IN
         (IF \E j \in m.must : j \notin m.got THEN {IF m.tcp THEN "P30:connection was not handed over" ELSE "P30:datagram lost"} ELSE {})
         \cup (IF m.tcp /\ m.got # {} /\ ~m.echo THEN {"P30:the descriptor does not work"} ELSE {}) : k \in DOMAIN s.m}
Fails(cfg, s, e) ==
  LET k == e[1] IN
  CASE k = BOUND -> BoundFails(s, e)
    [] k = NOBIND -> IF s.i[e[2]].kind >= 4 /\ s.i[e[2]].port # 0 THEN {} ELSE {"P30:could not be bound"}
    [] k = UNBD -> IF e[3] = 1 THEN {"P30:socket left open"} ELSE {}
    [] k = SEND -> SendFails(s, e)
    [] k = CONN -> ConnFails(s, e)
    [] k = RUN -> RunFails(s, e)
    [] k = CRUN -> CRunFails(s, e)
    [] k = ALIVE -> IF e[3] = 0 /\ s.i[e[2]].sure THEN {"P30:socket of a bound reaction was closed"} ELSE {}
    [] k = QUIET -> QuietFails(s)
    [] k = FIN -> (CASE e[2] = 0 -> {} [] e[2] = 2 -> {"CRASH"} [] OTHER -> {"HANG"})
    [] OTHER -> {}
Step(cfg, s, e) ==
  LET k == e[1] IN
  CASE k = BIND -> [s EXCEPT !.i = Put(@, e[2], [kind |-> e[3], addr |-> e[4], port |-> e[5], sure |-> FALSE, maybe |-> TRUE])]
    [] k = BOUND -> [s EXCEPT !.i[e[2]] = [@ EXCEPT !.port = e[3], !.sure = TRUE]]
    [] k = NOBIND -> [s EXCEPT !.i[e[2]].maybe = FALSE]
    [] k = UNB -> [s EXCEPT !.i[e[2]].sure = FALSE, !.m = [j \in DOMAIN @ |-> [@[j] EXCEPT !.must = @ \ {e[2]}]]]
    [] k = UNBD -> [s EXCEPT !.i[e[2]].maybe = FALSE]
    [] k = SEND -> Send(s, e)
    [] k = CONN -> Conn(s, e)
    [] k \in {RUN, CRUN} -> Got(s, e)
    [] k = ECHO -> IF e[2] \in DOMAIN s.m THEN [s EXCEPT !.m[e[2]].echo = TRUE] ELSE s
    [] OTHER -> s
=============================================================================
