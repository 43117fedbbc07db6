------------------------------- MODULE SchedMC -------------------------------
(* All behaviours of at most MaxM messages and MaxE events in which no clause *)
(* of Sched is ever broken.  Checked on them, from the state alone:           *)
(*  - the properties follow from the clauses (Exclusive, Pools, Bounded, ...) *)
(*  - the clauses do not contradict each other: whenever P03 demands that a   *)
(*    task is run, some start is allowed by all the others (Dischargeable),   *)
(*    and when nothing is left the system may be quiet (MayRest).             *)
EXTENDS Sched
CONSTANTS Inst, DefThreads, Emitters, Workers, MaxM, MaxE, Nest, Ctl, Modes
VARIABLES s, i, nm, ran, last, law
vars == <<s, i, nm, ran, last, law>>
H == [th |-> DefThreads, main |-> 0, end |-> 0, lax |-> FALSE, fz |-> FALSE, inst |-> Inst, uni |-> Inst, idleg |-> {}]
Kinds == {RKind[r] : r \in Inst}
Prefix == <<<<PPSTART, 0>>, <<STARTUP, 0>>, <<STARTUPEND, 0>>>>
RECURSIVE RunAll(_, _, _)
RunAll(st, q, n) == IF q = <<>> THEN st ELSE RunAll(Step(H, st, Head(q), n), Tail(q), n + 1)
Init == s = RunAll(InitState(H), Prefix, 1) /\ i = 4 /\ nm = 0 /\ ran = {} /\ last = 0 /\ law = TRUE
Do(e) == /\ Fails(H, s, e, i) = {}
         /\ s' = Step(H, s, e, i)
         /\ i' = i + 1
         /\ last' = e[1]
(* what a scheduler that follows the policy accepts *)
Accepts(r) == s.en[r] = 1 /\ r \notin s.once /\ (Lim(r) > 0 => PossAct(s, r) < Lim(r))
Emit == /\ nm < MaxM
        /\ \E t \in Emitters \cup Workers, k \in Kinds, mode \in Modes :
             /\ IF t \in Emitters THEN Depth(s, t) = 0 ELSE Nest /\ Depth(s, t) \in {1, 3} /\ Top(s, t)[1] = 2
             /\ \E R \in SUBSET {r \in Inst : RKind[r] = k} :
                  /\ law' = (law /\ R = {r \in Inst : RKind[r] = k /\ Accepts(r)})
                  \* an unlimited reaction is only guessed as the policy says
                  /\ \A r \in Inst : RKind[r] = k /\ Lim(r) = 0 => (r \in R <=> Accepts(r))
                  /\ LET q == CHOOSE f \in [1..Cardinality(R) -> R] : {f[j] : j \in 1..Cardinality(R)} = R
                     IN Do(<<EMIT, t, nm + 1, k, mode, IF R = {} THEN <<>> ELSE q, 0>>)
        /\ nm' = nm + 1 /\ UNCHANGED ran
Emitted == \E t \in DOMAIN s.stk : Depth(s, t) > 0 /\ Top(s, t)[1] = 1 /\ Do(<<EMITTED, t, Top(s, t)[2]>>) /\ UNCHANGED <<nm, ran, law>>
Startable(t, x) == /\ IF x \in DOMAIN s.T THEN s.T[x].acc ELSE TRUE
                   /\ (Depth(s, t) = 0 => t \in Workers)
                   /\ Fails(H, s, <<START, t, x[2], x[1], RScope[x[2]]>>, i) = {}
Start == \E t \in Emitters \cup Workers, x \in DOMAIN s.T \cup s.fin :
           /\ Startable(t, x)
           /\ Do(<<START, t, x[2], x[1], RScope[x[2]]>>)
           /\ ran' = ran \cup {<<x, i>>} /\ UNCHANGED <<nm, law>>
End == \E t \in DOMAIN s.stk : Depth(s, t) > 0 /\ Top(s, t)[1] = 2
         /\ Do(<<END, t, Top(s, t)[3], Top(s, t)[2], 0, RScope[Top(s, t)[3]]>>) /\ UNCHANGED <<nm, ran, law>>
Control == /\ Ctl
           /\ \E t \in Emitters, r \in Inst, c \in {0, 1} : Depth(s, t) = 0 /\
                \/ s.open[r] = 0 /\ s.en[r] = 1 - c /\ Do(<<CTL, t, r, c>>)
                \/ s.open[r] = 1 /\ Do(<<CTLD, t, r, c>>)
           /\ UNCHANGED <<nm, ran, law>>
Quiet == last # QUIET /\ Do(<<QUIET, 0>>) /\ UNCHANGED <<nm, ran, law>>
Next == i <= MaxE /\ (Emit \/ Emitted \/ Start \/ End \/ Control \/ Quiet)
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Open == {t \in DOMAIN s.stk : Depth(s, t) > 0 /\ Top(s, t)[1] = 1}
Exclusive == \A g \in Groups : Cardinality({x \in Running(s) : g \in RGroups[x[2]]}) <= GroupCap[g]
Pools == \A p \in {s.pool[t] : t \in DOMAIN s.pool} : Cardinality({t \in DOMAIN s.pool : s.pool[t] = p}) <= Conc(H, p)
Bounded == \A r \in Inst : Lim(r) > 0 => Cardinality({x \in DOMAIN s.T : x[2] = r /\ s.T[x].st \in {"q", "r"}}) <= Lim(r)
OnceEach == \A a, b \in ran : a[1] = b[1] => a = b
OnceOnly == \A r \in Inst : ROnce[r] = 1 => Cardinality({a \in ran : a[1][2] = r}) <= 1
(* whenever a quiet system would be stuck, something may start *)
Dischargeable ==
  LET W == Waiting(s) \ Justify(H, s, {}) IN
  (law /\ W # {} /\ Open = {}) => \E t \in Workers, x \in DOMAIN s.T : Startable(t, x)
\* a fresh message of an emit which is still open can always be finished
Closable == law => \A t \in Open : \/ Fails(H, s, <<EMITTED, t, Top(s, t)[2]>>, i) = {}
                            \/ \E x \in DOMAIN s.T : x[1] = Top(s, t)[2] /\ Startable(t, x)
MayRest == (law /\ Open = {} /\ Waiting(s) = {}) => Fails(H, s, <<QUIET, 0>>, i) = {}
(* nothing is left behind: with nothing running, what waits can run *)
NoneLeft == (law /\ Open = {} /\ Running(s) = {} /\ Waiting(s) # {}) => \E t \in Workers, x \in DOMAIN s.T : Startable(t, x)
=============================================================================
