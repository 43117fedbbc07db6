------------------------------- MODULE Sched -------------------------------
(***************************************************************************)
(* The observable contract of the NUClear scheduler and its DSL.            *)
(*                                                                         *)
(* The system is seen through the events of its API only: an emit begins    *)
(* and ends on a thread, a reaction callback starts and ends on a thread,   *)
(* a reaction handle is used, the process becomes quiet (every thread is    *)
(* blocked and no timer is pending), the plant is started and shut down.    *)
(*                                                                         *)
(*   Step(H, s, e, i)   the state after event e (the i-th of its run)        *)
(*   Fails(H, s, e, i)  the clauses that event e breaks in state s           *)
(*                                                                         *)
(* SchedTrace.tla runs recorded executions of the real code through this.   *)
(* SchedMC.tla explores all behaviours in which no clause is ever broken    *)
(* and checks that the properties (stated on the state) follow from them.   *)
(*                                                                         *)
(* A clause is a string "Pnn:what".  Everything that is not observable      *)
(* (which task of an open emit is already queued, when exactly a handle     *)
(* takes effect) is handled with certain/possible bounds, so that a clause  *)
(* is only broken if no placement of the unobservable steps explains it.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Catalog

(* H: the run. H.th  default pool threads   H.main the thread that starts    *)
(*    H.end 0 if the run ended by itself    H.lax TRUE if a task may be       *)
(*    missing from the starts (forced shutdown or a run that was cut short) *)
(*    H.inst reactions bound at the beginning, H.uni all that may be bound   *)
(*    H.idleg groups used by idle reactions    H.fz the run has a forced stop*)

(* Prophecies in an EMIT event: e[6] the reactions which run for the message,   *)
(* e[7] 1 if the emit is still open when the shutdown starts                   *)
EMIT == 1  EMITTED == 2  START == 3  END == 4  CTL == 5  CTLD == 6  BIND == 7  BOUND == 8
QUIET == 12  SD == 13  SDD == 14  SHUTR == 15  SHUTREND == 16  STARTUP == 17  STARTUPEND == 18
PPSTART == 19  STARTRET == 20  FINISH == 22

Conc(H, p) == IF p = DPOOL THEN H.th ELSE PoolConc[p]
Max(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f

(* The effective limit on outstanding tasks: Once is also Single *)
Lim(r) == IF ROnce[r] = 1 THEN 1 ELSE RBuf[r]
InlineOk(r, mode) == RInl[r] = 1 \/ (mode = 1 /\ RInl[r] # 2)

InitState(H) ==
  [ stk   |-> <<>>,         \* thread -> stack of frames <<1,m,0>> an emit, <<2,m,r>> an execution
    T     |-> <<>>,         \* <<m,r>> -> a live task
    fin   |-> {},           \* tasks that have ended
    mode  |-> <<>>,         \* message -> emit mode of the open ones
    en    |-> [r \in Reactions |-> IF r \in H.inst THEN 1 ELSE 0],   \* 0 off 1 on 2 can't tell
    open  |-> [r \in Reactions |-> 0],     \* handle operations in progress
    ovl   |-> {},           \* reactions whose handle operations overlapped
    dead  |-> {},           \* unbound
    once  |-> {},           \* Once reactions that have run
    tail  |-> <<>>,         \* thread -> reaction which ended as the last event of that thread, -1 if none
    pool  |-> (H.main :> MAIN),            \* thread -> the pool it belongs to
    lastEnd |-> <<>>,       \* thread -> index of the last event after which its stack was empty
    gEnd  |-> [g \in Groups |-> 0],        \* group -> index of the last end of one of its tasks
    started |-> FALSE, startup |-> 0, ret |-> FALSE,
    sd    |-> 0, sdAt |-> 0, force |-> FALSE, forced |-> {}, fdone |-> FALSE, shutr |-> 0, nsd |-> 0,
    lastQuiet |-> 0,
    enAt  |-> <<>>,         \* reaction -> index of the end of its last handle operation
    ppUsed |-> FALSE,       \* the persistent pool exists for sure
    fired |-> <<>>,         \* idle reaction -> index of its last start
    fires |-> <<>>,         \* idle reaction -> number of starts
    act   |-> <<>>,         \* pool -> how many times something was submitted to it or finished on it
    busy  |-> <<>>,         \* pool -> index of its last activity
    up    |-> <<>>,         \* thread -> index at which its outermost execution started
    noneDue |-> {}          \* idle reactions that had no firing on its way at the last quiet moment
  ]

Stack(s, t) == At(s.stk, t, <<>>)
Depth(s, t) == Len(Stack(s, t))
Top(s, t) == Stack(s, t)[Len(Stack(s, t))]
IsIdleR(r) == r \in IdleReactions

LiveKeys(s) == DOMAIN s.T
InState(s, st) == {x \in DOMAIN s.T : s.T[x].st = st}
Running(s) == InState(s, "r")
(* tasks that wait and are sure to be in the scheduler *)
Waiting(s) == {x \in DOMAIN s.T : s.T[x].st = "q"}
InGroup(x, g) == g \in RGroups[x[2]]
RunningIn(s, g) == {x \in Running(s) : InGroup(x, g)}
TailRs(s) == {s.tail[t] : t \in DOMAIN s.tail}
(* Outstanding tasks of a limited reaction: certainly, possibly *)
DefAct(s, r) == Cardinality({x \in DOMAIN s.T : x[2] = r /\ s.T[x].acc /\ s.T[x].st \in {"q", "r"}})
PossAct(s, r) == Cardinality({x \in DOMAIN s.T : x[2] = r /\ (s.T[x].acc \/ s.T[x].st = "q" \/ s.T[x].opn)})
                 + Cardinality({t \in DOMAIN s.tail : s.tail[t] = r})
GroupsMaybeBusy(H, s, x, G) ==
  \/ \E y \in DOMAIN s.T : y # x /\ (s.T[y].acc \/ s.T[y].opn \/ s.T[y].st = "q") /\ RGroups[y[2]] \cap G # {}
  \/ \E r \in TailRs(s) : r >= 0 /\ RGroups[r] \cap G # {}
  \/ H.idleg \cap G # {}

(* Threads of pool p that are executing something *)
BusyThreads(s, p) == {t \in DOMAIN s.pool : s.pool[t] = p /\ Depth(s, t) > 0}

-----------------------------------------------------------------------------
(* Which waiting tasks may wait in a quiet state: the least set such that a  *)
(* task is in it if its pool has no free thread or one of its groups is full *)
(* of running tasks and tasks that are in the set themselves.                *)
RECURSIVE Justify(_, _, _)
Justify(H, s, J) ==
  LET W == Waiting(s)
      PoolFull(p) == Cardinality(BusyThreads(s, p)) >= Conc(H, p)
      \* a firing of an idle reaction that has the group waits for its pool, it can't be seen yet
      Unseen(g) == Cardinality({r \in IdleReactions \cap H.inst : g \in RGroups[r] /\ PoolFull(RPool[r])})
      GroupFull(x, g) == Cardinality(RunningIn(s, g)) + Unseen(g) + Cardinality({y \in J \ {x} : InGroup(y, g)}) >= GroupCap[g]
      J2 == {x \in W : PoolFull(RPool[x[2]]) \/ \E g \in RGroups[x[2]] : GroupFull(x, g)}
  IN IF J2 = J THEN J ELSE Justify(H, s, J2)

-----------------------------------------------------------------------------
(* Priority and order.  x is picked by thread t at event i.                  *)
PrioFails(H, s, t, x, i) ==
  LET r == x[2]  p == RPool[r]  q == s.T[x]
      bound == Max(At(s.lastEnd, t, 0), q.b)
      ahead == {y \in Waiting(s) : /\ RPool[y[2]] = p /\ s.T[y].mode # 2 /\ RGroups[y[2]] = {}
                                   /\ s.T[y].acc /\ s.T[y].c < bound
                                   /\ \/ RPrio[y[2]] > RPrio[r]
                                      \/ RPrio[y[2]] = RPrio[r] /\ s.T[y].c < q.b}
      spare == Conc(H, p) - 1 - Cardinality({u \in BusyThreads(s, p) : u # t})
  IN IF RGroups[r] = {} /\ q.st # "p" /\ q.mode # 2 /\ Cardinality(ahead) > spare THEN {"P04:overtook"} ELSE {}

(* x starts although y, which needs no group that x does not need, has waited for   *)
(* one of them with a higher priority or longer.                                   *)
GroupOrderFails(H, s, x) ==
  LET r == x[2]  q == s.T[x]
      freed == SetMax({0} \cup {s.gEnd[g] : g \in {h \in RGroups[r] : GroupCap[h] = 1}})
      Bad(y) == /\ y # x /\ RGroups[y[2]] # {} /\ RGroups[y[2]] \subseteq RGroups[r] /\ s.T[y].acc
                /\ \A g \in RGroups[y[2]] : GroupCap[g] = 1
                /\ \/ RPrio[y[2]] > RPrio[r] /\ s.T[y].c < Max(freed, q.b)
                   \/ RPrio[y[2]] = RPrio[r] /\ s.T[y].c < q.b
  IN IF s.sd = 0 /\ q.mode # 2 /\ \E y \in Waiting(s) : s.T[y].mode # 2 /\ Bad(y) THEN {"P04:group overtook"} ELSE {}

-----------------------------------------------------------------------------
StartFails(H, s, e, i) ==
  LET t == e[2]  r == e[3]  m == e[4]  sc == e[5]  x == <<m, r>>
      d == Depth(s, t)
      p == RPool[r]
      known == IsIdleR(r) \/ (x \in DOMAIN s.T /\ s.T[x].st \in {"p", "q"})
      top == Top(s, t)
      task == s.T[x]
      mode == task.mode
      inl == d > 0
  IN   (IF ~known THEN {IF x \in s.fin \/ x \in DOMAIN s.T THEN "P01:ran twice" ELSE "P01:ran but was never emitted"} ELSE {})
  \cup (IF known /\ ~IsIdleR(r) /\ ~task.may THEN {"P14:ran while disabled"} ELSE {})
  \cup (IF \E g \in RGroups[r] : Cardinality(RunningIn(s, g)) >= GroupCap[g] THEN {"P02:group over its concurrency"} ELSE {})
  \cup (IF sc # RScope[r] THEN {"P21:scope wrong at start"} ELSE {})
  \cup (IF r \in s.once THEN {"P14:once ran again"} ELSE {})
  \cup (IF known /\ ~IsIdleR(r) /\ inl
        THEN (IF top[1] = 1 /\ top[2] = m /\ InlineOk(r, mode) THEN {} ELSE {"P06:ran inline where it must not"})
        ELSE {})
  \cup (IF IsIdleR(r) /\ inl THEN {"P06:idle ran inline"} ELSE {})
  \cup (IF ~inl
        THEN LET pp == IF known /\ ~IsIdleR(r) /\ mode = 2 /\ RInl[r] = 1 THEN DPOOL ELSE p
             IN (IF t \in DOMAIN s.pool /\ s.pool[t] # pp THEN {"P05:wrong pool"} ELSE {})
           \cup (IF t \notin DOMAIN s.pool /\ (pp = MAIN \/ Cardinality({u \in DOMAIN s.pool : s.pool[u] = pp}) >= Conc(H, pp))
                 THEN {"P05:too many threads"} ELSE {})
           \cup (IF s.startup # 2 THEN {"P08:ran before startup was done"} ELSE {})
           \cup (IF s.ret THEN {IF s.force THEN "P10:ran after start returned" ELSE "P09:ran after start returned"} ELSE {})
           \cup (IF known /\ ~IsIdleR(r)
                 THEN PrioFails(H, s, t, x, i)
                      \cup (IF InlineOk(r, mode) /\ mode # 2 /\ task.free THEN {"P06:queued though it could run inline"} ELSE {})
                      \cup (IF s.fdone /\ RGroups[r] = {} /\ task.st = "q" /\ task.c < s.sdAt /\ t \in s.forced
                            THEN {"P10:ran after forced shutdown"} ELSE {})
                 ELSE {})
        ELSE {})
  \cup (IF known /\ ~IsIdleR(r) THEN GroupOrderFails(H, s, x) ELSE {})
  \cup (IF known /\ ~IsIdleR(r) /\ Lim(r) > 0 /\ task.st = "p" /\ DefAct(s, r) + 1 > Lim(r) THEN {"P13:more outstanding than the limit"} ELSE {})

(* A task of a closing emit that will never start: is there an excuse? *)
Excused(s, x) ==
  LET q == s.T[x]  r == x[2] IN
  \/ ~q.must
  \/ Lim(r) > 0 /\ q.maxPoss >= Lim(r)
  \/ r \in s.once
  \/ s.sd # 0 /\ ~q.keep
DropLabel(s, x) ==
  LET r == x[2] IN
  IF s.sd # 0 THEN "P09:persistent pool dropped a task"
  ELSE IF Lim(r) > 0 THEN "P13:dropped below the limit"
  ELSE IF r \in s.ovl \/ s.T[x].hist THEN "P14:enabled reaction missed a message"
  ELSE "P01:task never ran"

CloseFails(H, s, m) ==
  LET X == {x \in DOMAIN s.T : x[1] = m}
      gone == {x \in X : s.T[x].st = "p" /\ ~s.T[x].acc}
  IN   {DropLabel(s, x) : x \in {y \in gone : ~Excused(s, y) /\ ~H.lax}}
  \cup (IF \E x \in X : s.T[x].st = "p" /\ s.T[x].acc /\ s.mode[m] # 2 /\ InlineOk(x[2], s.mode[m]) /\ s.T[x].free
        THEN {"P06:not run inline"} ELSE {})
  \cup (IF \E x \in X : Lim(x[2]) > 0 /\ s.T[x].acc /\ s.T[x].st = "p" /\ DefAct(s, x[2]) + 1 > Lim(x[2])
        THEN {"P13:more outstanding than the limit"} ELSE {})

EndFails(H, s, e) ==
  LET t == e[2]  r == e[3]  m == e[4]  sc == e[6] IN
       (IF Depth(s, t) = 0 \/ Top(s, t) # <<2, m, r>> THEN {"P01:ended out of order"} ELSE {})
  \cup (IF sc # RScope[r] THEN {"P21:scope wrong at end"} ELSE {})

(* idle *)
CountingPools == {MAIN, DPOOL, P1, P2, PP}
Watched(r) == IF IWatch[r] < 0 THEN CountingPools ELSE {IWatch[r]}
LastBusy(s, r) == SetMax({At(s.busy, p, 0) : p \in Watched(r)})
(* Every firing needs work of its own that kept a watched pool busy before, besides the one at the beginning *)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN At(f, p, 0) + SumOver(f, S \ {p})
IdleStartFails(H, s, e, i) ==
  LET r == e[3] IN
       (IF IsIdleR(r) /\ At(s.fires, r, 0) > SumOver(s.act, Watched(r)) THEN {"P07:fired without any work in between"} ELSE {})
  \cup (IF IsIdleR(r) /\ r \in s.noneDue /\ s.sd = 0
            /\ \E t \in DOMAIN s.pool : Depth(s, t) > 0 /\ s.pool[t] \in Watched(r) /\ At(s.up, t, i) < s.lastQuiet
        THEN {"P07:fired while what it watches was at work"} ELSE {})
(* Messages of an Initialise emit whose deferred emit is certainly over in a quiet state *)
ClosedInit(H, s) == IF s.startup # 2 \/ Cardinality(BusyThreads(s, DPOOL)) >= Conc(H, DPOOL) THEN {}
                    ELSE {m \in DOMAIN s.mode : s.mode[m] = 2 /\ ~\E y \in Running(s) : y[1] = m /\ RInl[y[2]] = 1}
IdleQuietFails(H, s) ==
  LET Due(r) == /\ r \in H.inst /\ s.en[r] = 1 /\ s.sd = 0
                /\ \A p \in Watched(r) : BusyThreads(s, p) = {}
                /\ \A x \in Waiting(s) : RPool[x[2]] \notin Watched(r)
                /\ \A y \in DOMAIN s.T : RGroups[y[2]] \cap RGroups[r] = {}
                /\ \A y \in DOMAIN s.T : y[2] # r
                /\ Cardinality(BusyThreads(s, RPool[r])) < Conc(H, RPool[r])
                /\ LastBusy(s, r) > At(s.enAt, r, 0)
                \* the previous firing of a limited one may not have been counted as over
                /\ Lim(r) > 0 => At(s.fired, r, 0) <= s.lastQuiet /\ s.lastQuiet < LastBusy(s, r)
  IN IF \E r \in IdleReactions : Due(r) /\ At(s.fired, r, 0) < LastBusy(s, r) THEN {"P07:did not fire"} ELSE {}

QuietFails(H, s) ==
  LET W == Waiting(s)
      stuck == {t \in DOMAIN s.stk : Depth(s, t) > 0 /\ Top(s, t)[1] = 1}
      L(x) == IF s.sd = 0 THEN "P03:runnable task is not run" ELSE "P09:runnable task is not run"
  IN   (* nothing runs before the startup reactions have ended *)
       {L(x) : x \in {y \in W \ Justify(H, s, {}) : s.startup = 2 /\ ~(s.force /\ s.sd # 0)}}
  \cup (IF stuck # {} THEN {"P03:a thread is stuck in an emit"} ELSE {})
  \cup (IF s.started /\ s.startup = 0 THEN {"P08:startup did not run"} ELSE {})
  \cup (IF s.sd = 2 /\ s.startup = 2 /\ ~s.ret /\ Running(s) = {} /\ (\A t \in DOMAIN s.stk : Depth(s, t) = 0)
        THEN {IF s.force THEN "P10:start does not return" ELSE "P09:start does not return"} ELSE {})
  \cup IdleQuietFails(H, s)

RetFails(H, s) ==
       (IF Running(s) # {} /\ \E t \in DOMAIN s.pool : Depth(s, t) > 0
        THEN {IF s.force THEN "P10:start returned with a task running" ELSE "P09:start returned with a task running"} ELSE {})
  \cup (IF ~s.force /\ s.shutr = 0 THEN {"P09:shutdown reactions did not run"} ELSE {})
  \cup (IF s.shutr > s.nsd THEN {"P09:shutdown reactions ran too often"} ELSE {})

Fails(H, s, e, i) ==
  CASE e[1] = START -> StartFails(H, s, e, i) \cup IdleStartFails(H, s, e, i)
    [] e[1] = END -> EndFails(H, s, e)
    [] e[1] = EMITTED -> (IF Depth(s, e[2]) = 0 \/ Top(s, e[2]) # <<1, e[3], 0>> THEN {"P01:emit ended out of order"} ELSE {})
                         \cup (IF s.mode[e[3]] = 2 THEN {} ELSE CloseFails(H, s, e[3]))
    [] e[1] = QUIET -> QuietFails(H, s) \cup UNION {CloseFails(H, s, m) : m \in ClosedInit(H, s)}
    [] e[1] = STARTUP -> (IF e[2] # H.main THEN {"P08:startup on another thread"} ELSE {})
                         \cup (IF ~s.started \/ s.startup # 0 THEN {"P08:startup ran more than once or too early"} ELSE {})
    [] e[1] = STARTRET -> RetFails(H, s)
    [] e[1] = SHUTR -> (IF s.nsd = 0 THEN {"P09:shutdown reaction without shutdown"} ELSE {})
                       \cup (IF s.ret THEN {"P09:ran after start returned"} ELSE {})
    [] e[1] = FINISH -> (IF e[2] = 1 THEN {IF s.sd = 0 THEN "P03:deadlock" ELSE IF s.force THEN "P10:deadlock" ELSE "P09:deadlock"}
                         ELSE IF e[2] = 2 THEN {IF s.sd = 0 THEN "CRASH" ELSE IF s.force THEN "P10:crash" ELSE "P09:crash"}
                         ELSE IF e[2] = 3 THEN {"HANG"} ELSE {})
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Effects *)
Clear(s, t) == IF t \in DOMAIN s.tail THEN [s EXCEPT !.tail = [u \in DOMAIN @ \ {t} |-> @[u]]] ELSE s
Push(s, t, f) == [s EXCEPT !.stk = Put(@, t, Append(Stack(s, t), f))]
Pop(s, t, i) == LET k == Stack(s, t) IN
  IF k = <<>> THEN s
  ELSE [s EXCEPT !.stk = Put(@, t, SubSeq(k, 1, Len(k) - 1)),
                 !.lastEnd = IF Len(k) = 1 THEN Put(@, t, i) ELSE @]
Drop(f, D) == [x \in DOMAIN f \ D |-> f[x]]
Work(s, p, n) == [s EXCEPT !.act = Put(@, p, At(@, p, 0) + n)]
Activity(s, p, i) == Work([s EXCEPT !.busy = Put(@, p, i)], p, 1)

DoEmit(H, s0, e, i) ==
  LET t == e[2]  m == e[3]  k == e[4]  mode == e[5]  accR == {e[6][j] : j \in 1..Len(e[6])}
      s == s0
      R == {r \in H.uni : RKind[r] = k}
      own == Depth(s, t) > 0 /\ Stack(s, t)[1][1] = 2 /\ RPool[Stack(s, t)[1][3]] # PP   \* in a task of a pool that finishes first
      New(r) == [st |-> "p", b |-> i, c |-> 0, mode |-> mode, acc |-> r \in accR, opn |-> e[7] = 1,
                 must |-> s.en[r] = 1 /\ s.open[r] = 0 /\ r \notin s.once,
                 may |-> s.en[r] # 0, hist |-> FALSE,
                 maxPoss |-> PossAct(s, r),
                 free |-> RGroups[r] = {} \/ (s.sd = 0 /\ ~GroupsMaybeBusy(H, s, <<m, r>>, RGroups[r])),
                 keep |-> RPool[r] = PP /\ s.ppUsed /\ own /\ ~H.fz /\ Lim(r) = 0 /\ RGroups[r] = {}]
      newT == [x \in {<<m, r>> : r \in R} |-> New(x[2])]
      \* tasks that shutdown drops while they are submitted may hold their groups for a moment
      takeR == IF e[7] = 1 THEN R ELSE accR
      accG == UNION {RGroups[r] : r \in takeR}
      \* siblings of the same message in the same group are not free either
      newT2 == [x \in DOMAIN newT |-> IF \E r \in takeR : r # x[2] /\ RGroups[r] \cap RGroups[x[2]] # {}
                                      THEN [newT[x] EXCEPT !.free = FALSE] ELSE newT[x]]
      old == [x \in DOMAIN s.T |->
                IF s.T[x].st = "p"
                THEN [s.T[x] EXCEPT !.free = @ /\ RGroups[x[2]] \cap accG = {},
                                    !.maxPoss = IF x[2] \in accR \/ e[7] = 1 THEN Max(@, PossAct(s, x[2]) + 1) ELSE @]
                ELSE s.T[x]]
      RECURSIVE Works(_, _)
      Works(s1, R1) == IF R1 = {} THEN s1 ELSE LET r == CHOOSE x \in R1 : TRUE IN Works(Work(s1, RPool[r], 1), R1 \ {r})
      sw == Works(IF mode = 2 THEN Work(s, DPOOL, 2) ELSE s, R)
  IN [Push(sw, t, <<1, m, 0>>) EXCEPT !.T = newT2 @@ old, !.mode = Put(@, m, mode)]

Close(H, s, m, i) ==
  LET X == {x \in DOMAIN s.T : x[1] = m /\ s.T[x].st = "p"}
      stay == {x \in X : s.T[x].acc \/ (H.lax /\ ~Excused(s, x))}
  IN [s EXCEPT !.T = [x \in DOMAIN @ \ (X \ stay) |-> IF x \in stay THEN [@[x] EXCEPT !.st = "q", !.c = i] ELSE @[x]],
               !.mode = Drop(@, {m}),
               !.ppUsed = @ \/ \E x \in stay : RPool[x[2]] = PP]

DoStart(H, s, e, i) ==
  LET t == e[2]  r == e[3]  m == e[4]  x == <<m, r>>
      base == IF x \in DOMAIN s.T THEN s.T[x]
              ELSE [st |-> "r", b |-> i, c |-> i, mode |-> 0, acc |-> TRUE, opn |-> FALSE, must |-> FALSE, may |-> TRUE, hist |-> FALSE,
                    maxPoss |-> 0, free |-> FALSE, keep |-> FALSE]
      inl == Depth(s, t) > 0
      pp == IF base.mode = 2 /\ RInl[r] = 1 THEN DPOOL ELSE RPool[r]
      s1 == [Push(s, t, <<2, m, r>>) EXCEPT !.T = Put(@, x, [base EXCEPT !.st = "r"]),
               !.pool = IF inl \/ t \in DOMAIN @ THEN @ ELSE Put(@, t, pp),
               !.fired = IF IsIdleR(r) THEN Put(@, r, i) ELSE @,
               !.fires = IF IsIdleR(r) THEN Put(@, r, At(@, r, 0) + 1) ELSE @,
               !.up = IF inl THEN @ ELSE Put(@, t, i)]
  IN IF IsIdleR(r) THEN Work(s1, RPool[r], 1) ELSE s1

DoEnd(H, s, e, i) ==
  LET t == e[2]  r == e[3]  m == e[4]  x == <<m, r>>
      s1 == Pop(s, t, i)
      s2 == [s1 EXCEPT !.T = LET T2 == Drop(@, {x}) IN
                 IF ROnce[r] = 1 THEN [y \in DOMAIN T2 |-> IF y[2] = r THEN [T2[y] EXCEPT !.must = FALSE] ELSE T2[y]] ELSE T2,
               !.fin = @ \cup {x},
               !.tail = Put(@, t, r),
               !.once = IF ROnce[r] = 1 THEN @ \cup {r} ELSE @,
               !.gEnd = [g \in Groups |-> IF g \in RGroups[r] THEN i ELSE @[g]],
               !.forced = IF s.fdone THEN @ \cup {t} ELSE @]
  IN IF Depth(s1, t) = 0 /\ t \in DOMAIN s1.pool THEN Activity(s2, s1.pool[t], i) ELSE s2

DoCtl(s, e) ==   \* a handle operation begins
  LET r == e[3] IN
  [s EXCEPT !.open[r] = @ + 1,
            !.ovl = IF s.open[r] > 0 THEN @ \cup {r} ELSE @,
            !.en[r] = IF r \in s.dead THEN @ ELSE 2,
            !.T = [x \in DOMAIN @ |-> IF x[2] = r /\ @[x].st = "p"
                                      THEN [@[x] EXCEPT !.must = FALSE, !.may = @ \/ r \notin s.dead]
                                      ELSE @[x]]]
DoCtld(s, e, i) ==
  LET r == e[3]  c == e[4]  n == s.open[r] - 1
      clean == r \notin s.ovl
      val == IF c = 1 THEN 1 ELSE 0 IN
  [s EXCEPT !.open[r] = n,
            !.ovl = IF n = 0 THEN @ \ {r} ELSE @,
            !.enAt = Put(@, r, i),
            !.dead = IF c = 2 THEN @ \cup {r} ELSE @,
            !.en[r] = IF c = 2 \/ r \in s.dead THEN 0 ELSE IF n = 0 /\ clean THEN val ELSE 2]
DoBind(s, e) == [s EXCEPT !.open[e[3]] = @ + 1, !.en[e[3]] = 2,
                          !.T = [x \in DOMAIN @ |-> IF x[2] = e[3] /\ @[x].st = "p" THEN [@[x] EXCEPT !.may = TRUE] ELSE @[x]]]
DoBound(s, e) == [s EXCEPT !.open[e[3]] = @ - 1, !.en[e[3]] = 1]

DoQuiet(H, s, i) ==
  LET Z == ClosedInit(H, s)
      RECURSIVE CloseAll(_, _)
      CloseAll(s1, Y) == IF Y = {} THEN s1 ELSE LET m == CHOOSE z \in Y : TRUE IN CloseAll(Close(H, s1, m, i), Y \ {m})
  IN [CloseAll(s, Z) EXCEPT !.tail = <<>>, !.lastQuiet = i,
        !.noneDue = IF s.startup # 2 \/ s.sd # 0 THEN {}
                    ELSE {r \in IdleReactions : /\ Cardinality(BusyThreads(s, RPool[r])) < Conc(H, RPool[r])
                                               /\ \A y \in DOMAIN s.T : RGroups[y[2]] \cap RGroups[r] = {}}]

DoSd(H, s, e, i) ==
  LET f == e[3] = 1
      gone == IF f THEN {x \in DOMAIN s.T : s.T[x].st = "q" /\ ~s.T[x].acc} ELSE {} IN
  [s EXCEPT !.sd = 1, !.sdAt = IF s.sd = 0 THEN i ELSE @, !.nsd = @ + 1,
            !.force = @ \/ f,
            \* tasks that are dropped from now on may have held their groups for a while
            !.T = LET T2 == Drop(@, gone) IN [x \in DOMAIN T2 |-> [T2[x] EXCEPT !.free = @ /\ RGroups[x[2]] = {}]]]

Step(H, s, e, i) ==
  CASE e[1] = EMIT -> DoEmit(H, Clear(s, e[2]), e, i)
    [] e[1] = EMITTED -> LET s1 == Pop(Clear(s, e[2]), e[2], i) IN IF s.mode[e[3]] = 2 THEN s1 ELSE Close(H, s1, e[3], i)
    [] e[1] = START -> DoStart(H, Clear(s, e[2]), e, i)
    [] e[1] = END -> DoEnd(H, Clear(s, e[2]), e, i)
    [] e[1] = CTL -> DoCtl(Clear(s, e[2]), e)
    [] e[1] = CTLD -> DoCtld(Clear(s, e[2]), e, i)
    [] e[1] = BIND -> DoBind(Clear(s, e[2]), e)
    [] e[1] = BOUND -> DoBound(Clear(s, e[2]), e)
    [] e[1] = QUIET -> DoQuiet(H, s, i)
    [] e[1] = SD -> DoSd(H, Clear(s, e[2]), e, i)
    [] e[1] = SDD -> [Clear(s, e[2]) EXCEPT !.sd = 2, !.fdone = @ \/ e[3] = 1]
    [] e[1] = SHUTR -> LET t == e[2] IN
         Activity([Push(Clear(s, t), t, <<3, 0, 0>>) EXCEPT !.shutr = @ + 1,
                   !.pool = IF t \in DOMAIN @ THEN @ ELSE Put(@, t, DPOOL)], DPOOL, i)
    [] e[1] = SHUTREND -> LET s1 == Pop(Clear(s, e[2]), e[2], i) IN Activity(s1, DPOOL, i)
    [] e[1] = STARTUP -> Work([s EXCEPT !.startup = 1], MAIN, 2)
    [] e[1] = STARTUPEND -> [s EXCEPT !.startup = 2]
    [] e[1] = PPSTART -> [s EXCEPT !.started = TRUE]
    [] e[1] = STARTRET -> [s EXCEPT !.ret = TRUE]
    [] OTHER -> s
=============================================================================
