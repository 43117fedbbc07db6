------------------------------ MODULE NetworkTrace ------------------------------
(* Checks recorded executions of the real code against Network. *)
EXTENDS Network, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.TRACES)
Cfg == [n \in 1..Len(Raw) |-> [mtu |-> Raw[n].mtu, pure |-> Raw[n].pure]]
VARIABLES tr, i, s
vars == <<tr, i, s>>
Init == tr \in 1..Len(Raw) /\ i = 1 /\ s = InitState(Raw[tr].n)
Next == /\ i <= Len(Raw[tr].ev)
        /\ LET e == Raw[tr].ev[i] IN
           /\ \A l \in Fails(Cfg[tr], s, e) : PrintT("REJECT " \o ToString(Raw[tr].id) \o " " \o ToString(i) \o " " \o l)
           /\ s' = Step(Cfg[tr], s, e)
        /\ i' = i + 1
        /\ tr' = tr
Spec == Init /\ [][Next]_vars
View == <<tr, i>>
=============================================================================
