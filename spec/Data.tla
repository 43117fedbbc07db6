-------------------------------- MODULE Data --------------------------------
(* What data an execution of a reaction may see.                             *)
(* The data of a type is a register: an emit writes its message to it at some *)
(* moment between its begin and its end, and a reaction reads it at some      *)
(* moment of the emit which triggers it.  A trigger slot is not a read: it    *)
(* holds the very message which triggered the execution.  The history of a    *)
(* Last<n> slot is a chain in which every triggering message is once.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
EMIT == 1  EMITTED == 2  RUN == 3  QUIET == 4  FIN == 9
(* slots of each reaction of drivers/data.cpp: <<trigger?, type, optional?, n>> *)
T(k) == <<1, k, 0, 0>>  W(k) == <<0, k, 0, 0>>  OT(k) == <<1, k, 1, 0>>  OW(k) == <<0, k, 1, 0>>  LT(n, k) == <<1, k, 0, n>>
A == 0  B == 1  C == 2  D == 3
Slots == [r \in 0..17 |->
  CASE r = 0 -> <<T(A)>> [] r = 1 -> <<T(A), W(B)>> [] r = 2 -> <<T(A), OW(B)>> [] r = 3 -> <<T(A), T(B)>> [] r = 4 -> <<LT(2, A)>>
    [] r = 5 -> <<LT(3, B), W(C)>> [] r = 6 -> <<T(C), W(A), W(B)>> [] r = 7 -> <<OT(A), OT(B)>> [] r = 8 -> <<T(A), W(B)>>
    [] r = 9 -> <<T(D), W(A)>> [] r = 10 -> <<LT(2, D)>> [] r = 11 -> <<LT(5, D)>> [] r = 12 -> <<T(B), W(A)>>
    [] r = 13 -> <<W(B), T(C)>> [] r = 14 -> <<T(B)>> [] r = 15 -> <<T(D), OW(C), W(B)>> [] r = 16 -> <<LT(1, C), W(A)>>
    [] r = 17 -> <<T(D)>>]
TrigKinds(r) == {Slots[r][j][2] : j \in {x \in 1..Len(Slots[r]) : Slots[r][x][1] = 1}}
Single(r) == Cardinality(TrigKinds(r)) = 1
(* kinds that must exist besides the trigger of kind k *)
Needed(r, k) == {Slots[r][j][2] : j \in {x \in 1..Len(Slots[r]) : Slots[r][x][3] = 0}} \ {k}

InitState == [em |-> <<>>,     \* message -> [k, b, c]: type, begin and end of its emit (0: not over)
              ran |-> <<>>,    \* reaction -> the messages it ran for (those with one trigger)
              cnt |-> <<>>,    \* reaction -> number of executions
              prev |-> <<>>]   \* <<reaction, message>> -> the one before it in the history, 0 if none
Put(f, x, v) == (x :> v) @@ f
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Msgs(s, k) == {x \in DOMAIN s.em : s.em[x].k = k}
Over(s, x) == s.em[x].c > 0
Before(s, x, y) == Over(s, x) /\ s.em[x].c < s.em[y].b

(* y may be what was read for type k by the emit of m, seen at event i *)
ReadOk(s, y, k, m, i) ==
  IF y = 0 THEN ~\E x \in Msgs(s, k) : Before(s, x, m)
  ELSE /\ y \in DOMAIN s.em /\ s.em[y].k = k
       /\ s.em[y].b < (IF Over(s, m) THEN s.em[m].c ELSE i)
       /\ ~\E x \in Msgs(s, k) : Before(s, y, x) /\ Before(s, x, m)
Val(d, j) == d[j][Len(d[j])]    \* the newest of a history, or the value
Explains(s, r, d, m, i) ==      \* m is the trigger of this execution
  \A j \in 1..Len(d) :
    LET sl == Slots[r][j] IN
    IF sl[1] = 1 /\ s.em[m].k = sl[2] THEN Val(d, j) = m ELSE ReadOk(s, Val(d, j), sl[2], m, i)

ListFails(s, r, L, n) ==
  LET k == s.em[L[Len(L)]].k
      known == \A j \in 1..Len(L) : L[j] \in Msgs(s, k)
  IN IF ~known THEN {"P12:not a message that was emitted"}
     ELSE (IF Len(L) > n THEN {"P12:more than asked for"} ELSE {})
     \cup (IF Cardinality({L[j] : j \in 1..Len(L)}) # Len(L) THEN {"P12:message repeated"} ELSE {})
     \cup (IF \E a, b \in 1..Len(L) : a < b /\ Before(s, L[b], L[a]) THEN {"P12:out of order"} ELSE {})
     \cup (IF \E j \in 1..(Len(L) - 1) : \E x \in Msgs(s, k) : x # L[j] /\ x # L[j + 1] /\ Before(s, L[j], x) /\ Before(s, x, L[j + 1])
           THEN {"P12:message skipped"} ELSE {})
     \cup (IF Len(L) < n /\ \E x \in Msgs(s, k) : Before(s, x, L[1]) THEN {"P12:fewer than asked for"} ELSE {})
     \cup (IF \E j \in 1..Len(L) : LET p == IF j > 1 THEN L[j - 1] ELSE IF Len(L) < n THEN 0 ELSE -1 IN
                  p >= 0 /\ \/ At(s.prev, <<r, L[j]>>, p) # p
                            \/ \E q \in DOMAIN s.prev : q[1] = r /\ q[2] # L[j] /\ s.prev[q] = p
           THEN {"P12:two histories disagree"} ELSE {})

RunFails(s, e, i) ==
  LET r == e[3]  d == e[4]
      M == {m \in DOMAIN s.em : s.em[m].k \in TrigKinds(r) /\ \E j \in 1..Len(d) : Val(d, j) = m}
      bad == \E j \in 1..Len(d) : \E x \in 1..Len(d[j]) : d[j][x] < 0 \/ (d[j][x] > 0 /\ d[j][x] \notin DOMAIN s.em)
      lists == {j \in 1..Len(d) : Slots[r][j][4] > 0}
  IN IF bad THEN {"P11:data of no message"}
     ELSE (IF \E m \in M : Explains(s, r, d, m, i) THEN {} ELSE {"P11:data is not that of any trigger"})
     \cup (IF \E j \in 1..Len(d) : Slots[r][j][3] = 0 /\ Val(d, j) = 0 THEN {"P11:ran without its data"} ELSE {})
     \cup (IF Single(r) /\ \E j \in 1..Len(d) : Slots[r][j][1] = 1 /\ Val(d, j) \in At(s.ran, r, {}) THEN {"P11:ran twice for a message"} ELSE {})
     \cup UNION {ListFails(s, r, d[j], Slots[r][j][4]) : j \in {x \in lists : d[x][Len(d[x])] > 0}}

(* The data for m was there for sure, or may have been *)
Sure(s, r, m) == \A k \in Needed(r, s.em[m].k) : \E x \in Msgs(s, k) : Before(s, x, m)
May(s, r, m) == \A k \in Needed(r, s.em[m].k) : \E x \in Msgs(s, k) : s.em[x].b < s.em[m].c
QuietFails(H, s) ==
  UNION {LET M == {m \in DOMAIN s.em : s.em[m].k \in TrigKinds(r) /\ Over(s, m)}
             n == At(s.cnt, r, 0) IN
         IF Single(r)
         THEN (IF \E m \in M : Sure(s, r, m) /\ m \notin At(s.ran, r, {}) THEN {"P11:did not run although its data was there"} ELSE {})
         ELSE (IF n < Cardinality({m \in M : Sure(s, r, m)}) THEN {"P11:did not run although its data was there"} ELSE {})
              \cup (IF n > Cardinality({m \in M : May(s, r, m)}) THEN {"P11:ran too often"} ELSE {})
         : r \in H}

Fails(H, s, e, i) ==
  CASE e[1] = RUN -> RunFails(s, e, i)
    [] e[1] = QUIET -> QuietFails(H, s)
    [] e[1] = FIN -> IF e[2] = 1 THEN {"P03:deadlock"} ELSE IF e[2] = 2 THEN {"CRASH"} ELSE IF e[2] = 3 THEN {"HANG"} ELSE {}
    [] OTHER -> {}

RECURSIVE Chain(_, _, _, _, _)
Chain(f, r, L, n, j) ==
  IF j > Len(L) THEN f
  ELSE LET p == IF j > 1 THEN L[j - 1] ELSE IF Len(L) < n THEN 0 ELSE -1
       IN Chain(IF p >= 0 THEN Put(f, <<r, L[j]>>, p) ELSE f, r, L, n, j + 1)
DoRun(s, e) ==
  LET r == e[3]  d == e[4]
      trig == {Val(d, j) : j \in {x \in 1..Len(d) : Slots[r][x][1] = 1}}
      lists == {j \in 1..Len(d) : Slots[r][j][4] > 0}
      s1 == [s EXCEPT !.cnt = Put(@, r, At(@, r, 0) + 1), !.ran = Put(@, r, At(@, r, {}) \cup trig)]
  IN IF lists = {} THEN s1 ELSE LET j == CHOOSE x \in lists : TRUE IN [s1 EXCEPT !.prev = Chain(@, r, d[j], Slots[r][j][4], 1)]
Step(s, e, i) ==
  CASE e[1] = EMIT -> [s EXCEPT !.em = Put(@, e[3], [k |-> e[4], b |-> i, c |-> 0])]
    [] e[1] = EMITTED -> [s EXCEPT !.em[e[3]].c = i]
    [] e[1] = RUN -> DoRun(s, e)
    [] OTHER -> s
=============================================================================
