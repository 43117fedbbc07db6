------------------------------ MODULE DataTrace ------------------------------
(* Checks recorded executions of the real code against Data. *)
EXTENDS Data, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, s
vars == <<tr, i, s>>
Init == tr \in 1..Len(Raw) /\ i = 1 /\ s = InitState
Next == /\ i <= Len(Raw[tr].ev)
        /\ LET e == Raw[tr].ev[i] IN
           /\ \A l \in Fails({Raw[tr].inst[j] : j \in 1..Len(Raw[tr].inst)}, s, e, i) : PrintT("REJECT " \o ToString(Raw[tr].id) \o " " \o ToString(i) \o " " \o l)
           /\ s' = Step(s, e, i)
        /\ i' = i + 1
        /\ tr' = tr
Spec == Init /\ [][Next]_vars
View == <<tr, i>>
=============================================================================
