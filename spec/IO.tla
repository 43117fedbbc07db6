---------------------------------- MODULE IO ----------------------------------
(* Reactions to descriptors (P19).  Every event that can change what a        *)
(* descriptor is ready for is followed by what the kernel says about it, as a *)
(* set of bits: 1 readable, 4 writable, 8 error, 16 hung up, 32 not open,     *)
(* 256 a stream at its end.  An event that is being processed has to occur     *)
(* again after that to be given to the reaction again.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise
ST == 1  BIND == 2  BOUND == 3  UNB == 4  UNBD == 5  MADE == 6  RUN == 7  END == 8  DIS == 9  DISD == 10  ENA == 11  ENAD == 12  QUIET == 13  OVER == 14  FIN == 99
READ == 1  WRITE == 4  CLOSE == 16  ERROR == 40  EOF == 256
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
Has(m, b) == (m & b) # 0
\* r: instance of a reaction -> its descriptor d, the events it asked for, whether it surely/possibly is bound, its task (0 none, 1 made, 2
\* running), what its descriptor was ready for before (a) and after (b) its last task was made, and whether it was told that it is closed
InitState == [st |-> <<>>, r |-> <<>>]
Bind(s, e) == [s EXCEPT !.r = Put(@, e[2], [d |-> e[3], ask |-> e[4], sure |-> FALSE, maybe |-> TRUE, on |-> TRUE, task |-> 0, a |-> 0, b |-> At(s.st, e[3], 0), done |-> FALSE, last |-> 0])]
State(s, e) == [s EXCEPT !.st = Put(@, e[2], e[3]), !.r = [i \in DOMAIN @ |-> IF @[i].d = e[2] THEN [@[i] EXCEPT !.b = @ | e[3]] ELSE @[i]]]
MadeFails(s, e) ==
  IF e[2] \notin DOMAIN s.r THEN {} ELSE LET x == s.r[e[2]] IN
  (IF ~x.maybe THEN {"P19:triggered after it was unbound"} ELSE {})
  \cup (IF x.done THEN {"P19:triggered after its descriptor closed"} ELSE {})
Made(s, e) == IF e[2] \notin DOMAIN s.r THEN s ELSE [s EXCEPT !.r[e[2]] = [@ EXCEPT !.a = @ | s.r[e[2]].b, !.b = At(s.st, s.r[e[2]].d, 0), !.task = IF @ = 0 THEN 1 ELSE @]]
RunFails(s, e) ==   \* <<RUN, instance, descriptor, events, thread>>
  LET x == s.r[e[2]]
      ask == x.ask | CLOSE
      was == (x.a & (READ | WRITE | ERROR | CLOSE)) | (IF Has(x.a, EOF) THEN CLOSE ELSE 0)
  IN (IF x.task = 2 THEN {"P19:two executions at once"} ELSE IF x.task = 0 THEN {"P19:ran without being triggered"} ELSE {})
     \cup (IF e[3] # x.d THEN {"P19:wrong descriptor"} ELSE {})
     \cup (IF e[4] = 0 THEN {"P19:ran without an event"} ELSE {})
     \cup (IF (e[4] & ask) # e[4] THEN {"P19:event it did not ask for"} ELSE {})
     \cup (IF (e[4] & ask & was) # (e[4] & ask) THEN {"P19:event that did not occur"} ELSE {})
Run(s, e) == [s EXCEPT !.r[e[2]] = [@ EXCEPT !.task = 2, !.a = 0, !.last = e[4]]]
\* what of b does not count any more once the events in ev have been processed
Rest(b, ev) == b - (b & (IF Has(ev, READ) THEN ev | EOF ELSE ev))
End(s, e) == [s EXCEPT !.r[e[2]] = [@ EXCEPT !.task = 0, !.done = Has(s.r[e[2]].last, CLOSE), !.b = Rest(s.r[e[2]].b, s.r[e[2]].last) | At(s.st, s.r[e[2]].d, 0)]]
QuietFails(s) ==
  UNION {LET x == s.r[i]  m == At(s.st, x.d, 0) IN
         (IF x.sure /\ x.on /\ ~x.done /\ x.task = 0 /\ Has(m, x.ask) THEN {"P19:ready but it does not run"} ELSE {})
         \cup (IF x.task = 2 THEN {"P19:never finished"} ELSE IF x.task = 1 /\ x.sure /\ x.on /\ x.a # 0 /\ Has(m, x.ask) THEN {"P19:ready but it does not run"} ELSE {}) : i \in DOMAIN s.r}
Fails(cfg, s, e) ==
  LET k == e[1] IN
  CASE k = MADE -> MadeFails(s, e)
    [] k = RUN -> RunFails(s, e)
    [] k = QUIET -> QuietFails(s)
    [] k = FIN -> (CASE e[2] = 0 -> {} [] e[2] = 2 -> {"CRASH"} [] OTHER -> {"HANG"})
    [] OTHER -> {}
Step(cfg, s, e) ==
  LET k == e[1] IN
  CASE k = ST -> State(s, e)
    [] k = BIND -> Bind(s, e)
    [] k = BOUND -> [s EXCEPT !.r[e[2]].sure = TRUE]
    [] k = UNB -> [s EXCEPT !.r[e[2]].sure = FALSE]
    [] k = UNBD -> [s EXCEPT !.r[e[2]].maybe = FALSE]
    [] k = MADE -> Made(s, e)
    [] k = RUN -> Run(s, e)
    [] k = END -> End(s, e)
    [] k = DIS -> [s EXCEPT !.r[e[2]].on = FALSE]
    [] k = ENAD -> [s EXCEPT !.r[e[2]].on = TRUE]
    [] OTHER -> s
=============================================================================
