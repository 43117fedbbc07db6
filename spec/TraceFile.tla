------------------------------ MODULE TraceFile ------------------------------
(* What a recorded trace file must contain (P29).  First comes the execution: *)
(* reaction events, log calls and the starts and stops of tracing.  Then the  *)
(* decoded records of every file.  A session is one BeginTrace and its file.  *)
(* Each event happened somewhere between the last and the next sign of life   *)
(* of its thread, so it is certainly or possibly inside a session.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
EV == 1  LOG == 2  LOGGED == 3  AT == 4  BEGIN == 5  STOP == 6  QUIET == 7  OVER == 8
FILE == 10  DEFN == 11  TRACK == 12  REC == 13  CLEAR == 14  BAD == 15  EOF == 16  FIN == 17
CREATED == 0  STARTED == 3  FINISHED == 4
SLICEBEGIN == 1  SLICEEND == 2  INSTANT == 3
Inf == 1000000000
Put(f, x, v) == (x :> v) @@ f
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Top(q) == q[Len(q)]
NoFile == [f |-> -1, names |-> <<>>, tracks |-> <<>>, thr |-> <<>>, last |-> <<>>, clear |-> FALSE, any |-> FALSE]
InitState == [n |-> 1, last |-> <<>>, quiet |-> 0, evs |-> <<>>, open |-> <<>>,
              st |-> [t \in 0..24 |-> <<>>],     \* log calls in progress
              quietlogs |-> <<>>,                \* logs by tasks without statistics
              sess |-> <<>>, fl |-> NoFile]

Kind(y) == IF y = STARTED THEN SLICEBEGIN ELSE IF y = FINISHED THEN SLICEEND ELSE INSTANT
Flow(e) == IF e.y \in {CREATED, STARTED} THEN e.k ELSE -1
Prio(l) == CASE l = 1 -> 2 [] l = 2 -> 3 [] l = 3 -> 4 [] l = 4 -> 5 [] l = 5 -> 6 [] l = 6 -> 7 [] OTHER -> 0
Of(s, f) == CHOOSE j \in 1..Len(s.sess) : s.sess[j].f = f
Own(S, e) == e.k = S.bt /\ e.y \in {CREATED, STARTED}
Possible(S, e) == Own(S, e) \/ (e.hi >= S.from /\ e.lo <= S.till)
Certain(S, e) == ~S.bad /\ (Own(S, e) \/ (e.lo > S.bound /\ e.hi < S.stop))
--------------------------------------------------------------------------------
(* the records of a file *)
Thread(s, i) == i \in DOMAIN s.fl.tracks /\ s.fl.tracks[i].y = 4
\* a track stands for one thread, and no other track does
Same(s, i, w) == IF i \in DOMAIN s.fl.thr THEN s.fl.thr[i] = w ELSE \A j \in DOMAIN s.fl.thr : s.fl.thr[j] # w
Events(s, S, r) == {j \in 1..Len(s.evs) : LET e == s.evs[j] IN e.v = r[12] /\ e.u = r[8] /\ Kind(e.y) = r[3] /\ Flow(e) = r[9] /\ (e.used = {} \/ (Own(S, e) /\ S.f \notin e.used)) /\ Possible(S, e)}
Logs(s, S, r) == {j \in 1..Len(s.evs) : LET e == s.evs[j] IN e.v = r[12] /\ e.u = r[8] /\ e.log # <<>> /\ ~e.logged /\ Possible(S, e)}
Named(s, i, name) == At(s.fl.names, <<2, i>>, <<"?", 0>>)[1] = name
Cats(s, r) == [j \in 1..Len(r[6]) |-> At(s.fl.names, <<1, r[6][j]>>, <<"?", 0>>)[1]]
Fits(s, r, j) == LET e == s.evs[j] IN Named(s, r[5], e.n) /\ Cats(s, r) = <<e.g, "reaction">> /\ Same(s, r[4], e.w)
LogFits(s, r, j) == LET e == s.evs[j] IN /\ Named(s, r[5], e.log[3]) /\ Cats(s, r) = <<e.log[4], "log">> /\ Same(s, r[4], e.w)
                                         /\ At(s.fl.names, <<20, r[10]>>, <<"?", -9>>)[2] = e.log[1] /\ r[11] = Prio(e.log[2])
QuietFits(s, r) == {j \in 1..Len(s.quietlogs) : LET g == s.quietlogs[j] IN g[1] = At(s.fl.names, <<20, r[10]>>, <<"?", -9>>)[2] /\ Prio(g[2]) = r[11]}
TrackNamed(s, r, w) == \E j \in 1..Len(s.evs) : s.evs[j].w = w /\ s.evs[j].p = s.fl.tracks[r[4]].n
RecFails(s, r) ==
  LET S == s.sess[Of(s, r[2])]  log == r[10] # -1 IN
  (IF r[13] # 1 \/ r[14] # 2 \/ ~s.fl.clear THEN {"P29:record outside a sequence"} ELSE {})
  \cup (IF <<2, r[5]>> \notin DOMAIN s.fl.names \/ (\E j \in 1..Len(r[6]) : <<1, r[6][j]>> \notin DOMAIN s.fl.names)
           \/ (log /\ <<20, r[10]>> \notin DOMAIN s.fl.names) THEN {"P29:name used before it is defined"} ELSE {})
  \cup (IF ~Thread(s, r[4]) \/ r[7] \notin DOMAIN s.fl.tracks THEN {"P29:track used before it is defined"}
        ELSE (IF s.fl.tracks[r[7]].y # 8 \/ s.fl.tracks[r[7]].o # r[4] THEN {"P29:wrong counter"} ELSE {})
             \cup (IF log
                   THEN LET ms == Logs(s, S, r) IN
                        (IF ~S.logs THEN {"P29:log not asked for"} ELSE {})
                        \cup (IF r[3] # INSTANT THEN {"P29:log is not an instant"} ELSE {})
                        \cup (IF QuietFits(s, r) # {} THEN {} ELSE
                              IF ms = {} THEN {"P29:log of nothing that happened"}
                              ELSE (IF \A j \in ms : ~LogFits(s, r, j) THEN {"P29:wrong log"} ELSE {})
                                   \cup (IF \A j \in ms : ~TrackNamed(s, r, s.evs[j].w) THEN {"P29:wrong name of a track"} ELSE {}))
                   ELSE LET ms == Events(s, S, r) IN
                        IF ms = {} THEN {"P29:record of nothing that happened"}
                        ELSE (IF \A j \in ms : ~Fits(s, r, j) THEN {"P29:wrong record"} ELSE {})
                             \cup (IF \A j \in ms : ~TrackNamed(s, r, s.evs[j].w) THEN {"P29:wrong name of a track"} ELSE {})
                             \cup (IF \A j \in ms : Fits(s, r, j) => j < At(s.fl.last, r[4], 0) THEN {"P29:out of order"} ELSE {})))
TrackFails(s, r) ==
  LET known == r[3] \in DOMAIN s.fl.tracks  T == s.fl.tracks IN
  (IF known /\ T[r[3]] # [o |-> r[4], y |-> r[5], p |-> r[6], d |-> r[7], n |-> r[9]] THEN {"P29:track defined twice"} ELSE {})
  \cup (IF r[3] <= 0 \/ r[5] \notin {3, 4, 8} THEN {"P29:track of no kind"} ELSE {})
  \cup (IF r[5] = 4 /\ (r[4] \notin DOMAIN T \/ T[r[4]].y # 3 \/ T[r[4]].p # r[6] \/ \E j \in DOMAIN T \ {r[3]} : T[j].y = 4 /\ T[j].d = r[7]) THEN {"P29:thread of no process"} ELSE {})
  \cup (IF r[5] = 8 /\ (~Thread(s, r[4]) \/ r[8] # 1) THEN {"P29:counter of no thread"} ELSE {})
EofFails(s, f) ==
  LET S == s.sess[Of(s, f)] IN
  (IF S.done /\ \E j \in 1..Len(s.evs) : (IF Own(S, s.evs[j]) THEN f \notin s.evs[j].used ELSE s.evs[j].used = {}) /\ Certain(S, s.evs[j]) THEN {"P29:event lost"} ELSE {})
  \cup (IF S.done /\ S.logs /\ \E j \in 1..Len(s.evs) : s.evs[j].log # <<>> /\ ~s.evs[j].logged /\ Certain(S, s.evs[j]) THEN {"P29:log lost"} ELSE {})
LoggedFails(s, e) ==
  LET g == Top(s.st[e[2]]) IN
  IF g[5] = 1 /\ ~g[7] /\ \E j \in 1..Len(s.sess) : s.sess[j].logs /\ ~s.sess[j].bad /\ g[6] > s.sess[j].bound /\ s.n < s.sess[j].stop THEN {"P29:log not traced"} ELSE {}
Fails(s, e) ==
  CASE e[1] = LOGGED -> LoggedFails(s, e)
    [] e[1] = FILE -> IF e[3] = 0 /\ s.sess[Of(s, e[2])].done /\ ~s.sess[Of(s, e[2])].bad THEN {"P29:no file"} ELSE {}
    [] e[1] = DEFN -> IF e[7] # 1 \/ (<<e[4], e[3]>> \in DOMAIN s.fl.names /\ s.fl.names[<<e[4], e[3]>>] # <<e[6], e[5]>>) THEN {"P29:name defined twice"} ELSE {}
    [] e[1] = TRACK -> TrackFails(s, e)
    [] e[1] = REC -> RecFails(s, e)
    [] e[1] = CLEAR -> IF e[3] = 1 /\ e[4] = 1 /\ e[5] = 1 /\ e[7] = 0 /\ ~s.fl.any THEN {} ELSE {"P29:state cleared within a file"}
    [] e[1] = BAD -> {"P29:malformed"}
    [] e[1] = EOF -> EofFails(s, e[2])
    [] e[1] = FIN -> IF e[2] = 1 THEN {"P29:deadlock"} ELSE IF e[2] = 2 THEN {"CRASH"} ELSE IF e[2] = 3 THEN {"HANG"} ELSE {}
    [] OTHER -> {}
--------------------------------------------------------------------------------
(* the execution *)
Lo(s, t) == Max(At(s.last, t, 0), s.quiet)
Close(s, t) == IF t \in DOMAIN s.open THEN [s EXCEPT !.evs[s.open[t]].hi = s.n, !.open = [x \in DOMAIN @ \ {t} |-> @[x]]] ELSE s
Sign(s, t) == [Close(s, t) EXCEPT !.last = Put(@, t, s.n)]
CloseAll(s) == [s EXCEPT !.evs = [j \in 1..Len(@) |-> IF @[j].hi = Inf THEN [@[j] EXCEPT !.hi = s.n] ELSE @[j]], !.open = <<>>, !.quiet = s.n]
Session(s, e, f) == [j \in 1..Len(s.sess) |-> IF j = Len(s.sess) THEN [s.sess[j] EXCEPT !.stop = Min(@, s.n)] ELSE s.sess[j]]
DoEv(s0, e) ==
  LET t == e[2]  lo == Lo(s0, t)  s == Close(s0, t)  q == s.st[t]
      makes == e[11] = 3 /\ e[3] = CREATED /\ q # <<>> /\ ~Top(q)[7]
      ev == [y |-> e[3], k |-> e[4], n |-> e[5], g |-> e[6], w |-> e[7], p |-> e[8], v |-> e[9], u |-> e[10], lo |-> lo, hi |-> Inf, used |-> {}, logged |-> FALSE,
             log |-> IF makes THEN Top(q) ELSE <<>>]
      L == Len(s.sess)
      s1 == [s EXCEPT !.evs = Append(@, ev), !.open = Put(@, t, Len(s.evs) + 1), !.last = Put(@, t, s.n), !.st[t] = IF makes THEN [@ EXCEPT ![Len(q)][7] = TRUE] ELSE @]
      \* the first session without a task got this one
      s2 == IF e[11] = 1 /\ e[3] = CREATED /\ \E j \in 1..L : s.sess[j].bt = 0
            THEN LET j == CHOOSE j \in 1..L : s.sess[j].bt = 0 /\ \A h \in 1..(j - 1) : s.sess[h].bt # 0 IN [s1 EXCEPT !.sess[j].bt = e[4]]
            ELSE IF e[11] = 1 /\ e[3] = FINISHED
            THEN [s1 EXCEPT !.sess = [j \in 1..L |-> IF @[j].bt = e[4] THEN [@[j] EXCEPT !.bound = s.n, !.done = TRUE]
                                                     ELSE IF @[j].done THEN [@[j] EXCEPT !.till = Min(@, s.n)] ELSE @[j]]]
            ELSE IF e[11] = 2 /\ e[3] = FINISHED
            THEN [s1 EXCEPT !.sess = [j \in 1..L |-> IF @[j].done THEN [@[j] EXCEPT !.till = Min(@, s.n)] ELSE @[j]]]
            ELSE s1
  IN s2
DoRec(s, r) ==
  LET S == s.sess[Of(s, r[2])]
      ms == IF r[10] # -1 THEN Logs(s, S, r) ELSE Events(s, S, r)
      good == {j \in ms : IF r[10] # -1 THEN LogFits(s, r, j) ELSE Fits(s, r, j) /\ j > At(s.fl.last, r[4], 0)}
      pick == IF good # {} THEN good ELSE ms
      a == [s EXCEPT !.fl.any = TRUE]
  IN IF ~Thread(s, r[4]) THEN a
     ELSE IF pick = {}
     THEN IF r[10] # -1 /\ QuietFits(s, r) # {} THEN LET j == CHOOSE j \in QuietFits(s, r) : TRUE IN [a EXCEPT !.quietlogs[j] = <<-9, 0>>] ELSE a
     ELSE LET j == CHOOSE j \in pick : \A h \in pick : j <= h IN
          IF r[10] # -1 THEN [a EXCEPT !.evs[j].logged = TRUE, !.fl.thr = Put(@, r[4], s.evs[j].w)]
          ELSE [a EXCEPT !.evs[j].used = @ \cup {S.f}, !.fl.thr = Put(@, r[4], s.evs[j].w), !.fl.last = Put(@, r[4], j)]
StepE(s, e) ==
  CASE e[1] = EV -> DoEv(s, e)
    [] e[1] = LOG -> LET u == Sign(s, e[2]) IN [u EXCEPT !.st[e[2]] = Append(@, <<e[3], e[4], e[5], e[6], e[7], s.n, FALSE>>),
                                                         !.quietlogs = IF e[7] = 0 THEN Append(@, <<e[3], e[4]>>) ELSE @]
    [] e[1] = LOGGED -> LET u == Sign(s, e[2]) IN [u EXCEPT !.st[e[2]] = SubSeq(@, 1, Len(@) - 1)]
    [] e[1] = AT -> Sign(s, e[2])
    [] e[1] = BEGIN -> LET u == Sign(s, e[2]) IN
                       [u EXCEPT !.sess = Append(Session(s, e, 0), [f |-> e[3], logs |-> e[4] = 1, bad |-> e[5] = 1, from |-> s.n, bt |-> 0, bound |-> Inf, done |-> FALSE, stop |-> Inf, till |-> Inf])]
    [] e[1] = STOP -> LET u == Sign(s, e[2]) IN [u EXCEPT !.sess = Session(s, e, 0)]
    [] e[1] = QUIET -> CloseAll(s)
    [] e[1] = OVER -> [s EXCEPT !.sess = Session(s, e, 0)]
    [] e[1] = FILE -> [CloseAll(s) EXCEPT !.fl = [NoFile EXCEPT !.f = e[2]]]
    [] e[1] = DEFN -> [s EXCEPT !.fl.names = Put(@, <<e[4], e[3]>>, <<e[6], e[5]>>), !.fl.any = TRUE]
    [] e[1] = TRACK -> [s EXCEPT !.fl.tracks = Put(@, e[3], [o |-> e[4], y |-> e[5], p |-> e[6], d |-> e[7], n |-> e[9]]), !.fl.any = TRUE]
    [] e[1] = REC -> DoRec(s, e)
    [] e[1] = CLEAR -> [s EXCEPT !.fl.clear = TRUE]
    [] OTHER -> s
Step(s, e) == [StepE(s, e) EXCEPT !.n = s.n + 1]
=============================================================================
