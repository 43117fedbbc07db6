------------------------------ MODULE SchedGen ------------------------------
(* Behaviours of Sched in which the system runs as far as it can before the   *)
(* environment does the next thing: an emit from outside or from a reaction,  *)
(* the end of a reaction, the use of a handle.  What the environment did is   *)
(* kept in hist.  TLC generates them (-simulate), tools/suite_replay.py turns *)
(* each into a program that makes the real code see the same environment and  *)
(* checks with SchedTrace what it did.                                        *)
EXTENDS SchedMC
CONSTANTS MaxA, Burst
VARIABLES hist, acts
gvars == <<vars, hist, acts>>
GInit == Init /\ hist = <<>> /\ acts = 0
Threads == Workers \cup DOMAIN s.stk
(* one thread for each way in which x may start *)
Starters(x) == LET F == {t \in Threads : Startable(t, x)}
                   I == {t \in F : Depth(s, t) > 0}
                   K == {t \in F : t \in DOMAIN s.pool /\ Depth(s, t) = 0}
                   N == F \ (I \cup K)
                   One(S) == IF S = {} THEN {} ELSE {CHOOSE t \in S : TRUE}
               IN I \cup One(IF K # {} THEN K ELSE N)
CanEmitted == \E t \in DOMAIN s.stk : Depth(s, t) > 0 /\ Top(s, t)[1] = 1 /\ Fails(H, s, <<EMITTED, t, Top(s, t)[2]>>, i) = {}
CanSystem == CanEmitted \/ \E x \in DOMAIN s.T : Starters(x) # {}
SStart == \E x \in DOMAIN s.T : \E t \in Starters(x) :
            /\ Do(<<START, t, x[2], x[1], RScope[x[2]]>>) /\ ran' = ran \cup {<<x, i>>} /\ UNCHANGED <<nm, law>>
System == (Emitted \/ SStart) /\ UNCHANGED <<hist, acts>>
EmitAs(t, k, mode, h) ==
  LET R == {r \in Inst : RKind[r] = k /\ Accepts(r)}
      q == CHOOSE f \in [1..Cardinality(R) -> R] : {f[j] : j \in 1..Cardinality(R)} = R
  IN /\ nm < MaxM
     /\ Do(<<EMIT, t, nm + 1, k, mode, IF R = {} THEN <<>> ELSE q, 0>>)
     /\ nm' = nm + 1 /\ hist' = Append(hist, h) /\ UNCHANGED <<ran, law>>
Running1 == {t \in DOMAIN s.stk : Depth(s, t) > 0 /\ Top(s, t)[1] = 2}
Env == /\ acts < MaxA /\ acts' = acts + 1
       /\ \/ \E k \in Kinds, mode \in Modes : EmitAs(100 + nm, k, mode, <<1, mode, k>>)
          \/ Nest /\ \E t \in Running1, k \in Kinds, mode \in Modes :
                Depth(s, t) <= 5 /\ EmitAs(t, k, mode, <<2, Top(s, t)[2], Top(s, t)[3], mode, k>>)
          \/ \E t \in Running1 :
                /\ Do(<<END, t, Top(s, t)[3], Top(s, t)[2], 0, RScope[Top(s, t)[3]]>>)
                /\ hist' = Append(hist, <<3, Top(s, t)[2], Top(s, t)[3]>>) /\ UNCHANGED <<nm, ran, law>>
          \/ Ctl /\ \E r \in Inst : \E c \in {0, 1} :
                /\ s.open[r] = 0 /\ s.en[r] = 1 - c
                /\ LET a == <<CTL, 99, r, c>>  b == <<CTLD, 99, r, c>> IN
                     /\ s' = Step(H, Step(H, s, a, i), b, i + 1) /\ i' = i + 2 /\ last' = CTLD
                /\ hist' = Append(hist, <<4, r, c>>) /\ UNCHANGED <<nm, ran, law>>
Rest == Do(<<QUIET, 0>>) /\ last # QUIET /\ hist' = Append(hist, <<5>>) /\ UNCHANGED <<nm, ran, law, acts>>
Over == acts = MaxA \/ (nm = MaxM /\ Running1 = {} /\ ~Ctl)
GNext == IF CanSystem THEN System
         ELSE IF Over /\ last = QUIET THEN UNCHANGED gvars
         ELSE \/ Rest
              \/ (Burst \/ last = QUIET) /\ Env
GSpec == GInit /\ [][GNext]_gvars
(* evaluated once, in the last state of a behaviour *)
Shown == (~CanSystem /\ Over /\ last = QUIET) => PrintT(<<"PROG", hist>>)
=============================================================================
