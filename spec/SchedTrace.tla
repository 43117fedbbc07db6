----------------------------- MODULE SchedTrace -----------------------------
(* Checks recorded executions of the real code against Sched.               *)
(* Each line of the trace file is one run.  All runs are initial states, so  *)
(* TLC's workers check them in parallel; each run is a single path.          *)
EXTENDS Sched, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACES)
SetOf(q) == {q[j] : j \in 1..Len(q)}
Hdr == [n \in 1..Len(Raw) |->
         [th |-> Raw[n].h[1], main |-> Raw[n].h[2], end |-> Raw[n].h[3], lax |-> Raw[n].h[4] = 1, fz |-> Raw[n].h[5] = 1,
          inst |-> SetOf(Raw[n].inst), uni |-> SetOf(Raw[n].uni), idleg |-> SetOf(Raw[n].idleg)]]

VARIABLES tr, i, s
vars == <<tr, i, s>>
Init == /\ tr \in 1..Len(Raw)
        /\ i = 1
        /\ s = InitState(Hdr[tr])
Next == /\ i <= Len(Raw[tr].ev)
        /\ LET e == Raw[tr].ev[i]
               f == Fails(Hdr[tr], s, e, i)
           IN /\ \A l \in f : PrintT("REJECT " \o ToString(Raw[tr].id) \o " " \o ToString(i) \o " " \o l)
              /\ s' = Step(Hdr[tr], s, e, i)
        /\ i' = i + 1
        /\ tr' = tr
Spec == Init /\ [][Next]_vars
(* A run is a single path, so these two identify a state *)
View == <<tr, i>>
=============================================================================
