------------------------------- MODULE Queue --------------------------------
(* Linearizability of a FIFO queue, decided on the invocations and responses *)
(* of its operations.  For distinct items the four patterns below are         *)
(* complete (Henzinger, Sezgin, Vafeiadis: aspect oriented linearizability).  *)
(*   e = <<ENQ, t, v>>  <<ENQD, t, v>>  <<DEQ, t, v>>  <<DEQD, t, v>>          *)
(* where DEQ carries what the attempt is going to return (-1: empty).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
ENQ == 1  ENQD == 2  DEQ == 3  DEQD == 4  LEFT == 5  LOST == 6  DESTROYED == 7  FIN == 9

InitState == [ beg |-> <<>>,    \* item -> when its insertion began
               done |-> <<>>,   \* item -> when its insertion was complete
               taken |-> {},    \* items whose removal has begun
               got |-> {},      \* items that came out
               left |-> {},     \* items destroyed with the queue
               could |-> <<>>,  \* thread -> was there a moment of its attempt at which the queue may have been empty
               fin |-> FALSE ]
Sure(s) == DOMAIN s.done \ s.taken
Put(f, x, v) == (x :> v) @@ f

Fails(s, e, i) ==
  CASE e[1] = DEQD /\ e[3] >= 0 ->
            (IF e[3] \in s.got THEN {"P31:came out twice"} ELSE {})
       \cup (IF e[3] \notin DOMAIN s.beg THEN {"P31:came out but was never put in"} ELSE {})
       \cup (IF \E a \in DOMAIN s.done \ s.taken : a # e[3] /\ e[3] \in DOMAIN s.beg /\ s.done[a] < s.beg[e[3]]
             THEN {"P31:overtook an earlier item"} ELSE {})
    [] e[1] = DEQD /\ e[3] < 0 -> IF ~s.could[e[2]] THEN {"P31:empty although an item was in it"} ELSE {}
    [] e[1] = LEFT -> IF e[3] \in s.left \cup s.got \/ e[3] \notin DOMAIN s.beg THEN {"P31:destroyed twice"} ELSE {}
    [] e[1] = LOST -> {"P31:item destroyed by an operation"}
    [] e[1] = DESTROYED -> IF DOMAIN s.beg # s.got \cup s.left THEN {"P31:item lost"} ELSE {}
    [] e[1] = FIN -> IF e[3] = 1 THEN {"P31:stuck"} ELSE IF e[3] = 2 THEN {"CRASH"} ELSE IF e[3] = 3 THEN {"HANG"} ELSE {}
    [] OTHER -> {}

(* every open attempt sees a moment after each event *)
Look(s) == [s EXCEPT !.could = [t \in DOMAIN @ |-> @[t] \/ Sure(s) = {}]]
Step(s, e, i) ==
  CASE e[1] = ENQ -> Look([s EXCEPT !.beg = Put(@, e[3], i)])
    [] e[1] = ENQD -> Look([s EXCEPT !.done = Put(@, e[3], i)])
    [] e[1] = DEQ -> LET s1 == IF e[3] >= 0 THEN [s EXCEPT !.taken = @ \cup {e[3]}] ELSE s
                     IN Look([s1 EXCEPT !.could = Put(@, e[2], Sure(s1) = {})])
    [] e[1] = DEQD -> Look(IF e[3] >= 0 THEN [s EXCEPT !.got = @ \cup {e[3]}] ELSE s)
    [] e[1] = LEFT -> [s EXCEPT !.left = @ \cup {e[3]}]
    [] OTHER -> s
=============================================================================
