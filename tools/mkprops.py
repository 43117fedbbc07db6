import json
def A(files, mech, state=(), obs=(), hook=None):
    return dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in state],
                mechanism=[dict(zip(("name","where"),m)) for m in mech], observe_at=list(obs), hook_needed=hook)
P=[]
def prop(id,title,st,over,text,why,anch): 
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=anch))
S="src/threading/scheduler/"
prop("P01","Every emitted message runs each bound reaction exactly once",
 "For every message that is emitted, each reaction that is bound to its type and enabled when the emit is made runs exactly once for it, unless that reaction's own limits (Buffer, Single, Once), a disable/unbind, missing data, or shutdown excuse it. No task is ever lost, run twice, or run for a message that was not emitted. This holds for any number of threads emitting at the same time.",
 ["schedules","programs","histories"],"every program of emits (queued, inline, before start, nested in reactions), every set of reactions, thread count and interleaving",
 "the tests run a few fixed programs with the schedules the OS happens to give; a lost wakeup, lost task or double dispatch needs a particular interleaving of producers, workers and group hand-overs",
 A([S+"Scheduler.cpp",S+"Pool.cpp",S+"Group.cpp",S+"queue/TaskQueue.hpp",S+"queue/MPSCQueue.hpp","src/dsl/word/emit/Local.hpp","src/util/CallbackGenerator.hpp"],
   [("Scheduler::submit",S+"Scheduler.cpp"),("Pool::get_task / submit",S+"Pool.cpp"),("Group::hand_over_tokens",S+"Group.cpp")],
   [("buckets/pending_tasks","accepted tasks that are not yet taken by a worker",S+"Pool.hpp"),("wait_buckets","tasks parked for a group token",S+"Group.hpp")],
   ["start and end of each reaction callback, begin and end of each emit"]))
prop("P02","A group never runs more tasks at once than its concurrency",
 "At no moment do more tasks of one group (Sync is a group of one) execute than the group's declared concurrency, whichever pools they run on and whether they run inline, queued, alone in that group or also in other groups. A task that names several groups holds a place in all of them for its whole execution.",
 ["schedules","programs","configurations"],"every mix of single-group, multi-group and inline tasks over every pool layout and every interleaving",
 "mutual exclusion fails only in narrow windows between taking, restoring and handing over a token; existing tests run one schedule and count overlaps in a few layouts",
 A([S+"Group.cpp",S+"Group.hpp",S+"Scheduler.cpp","src/dsl/word/Sync.hpp","src/dsl/word/Group.hpp"],[("tokens, counted_waiters, MultiLock, take_token",S+"Group.cpp")],
   [("tokens","free places of the group",S+"Group.hpp")],["start and end of reactions in a group"]))
prop("P03","Runnable work always runs: no deadlock, lost wakeup or stranded task",
 "A task never stays waiting while a thread of its pool is free and every group it needs has a free place that no task ahead of it needs. When nothing is running and nothing is on its way, no task is left waiting, and no set of tasks can deadlock by waiting for groups in different orders. A task that must wait for its groups never keeps unrelated tasks of the same pool from running.",
 ["schedules","programs"],"every quiescent point of every program and interleaving, including tasks blocked inside their callbacks while others could run",
 "stranding needs a wakeup lost at one exact point, or two multi-group tasks meeting in a particular order; the tests' timeouts see only the schedules that happen",
 A([S+"Pool.cpp",S+"Group.cpp",S+"Scheduler.cpp"],[("Pool::submit/notify/get_task",S+"Pool.cpp"),("hand_over_tokens, MultiLock::lock",S+"Group.cpp")],
   [("live","a worker should look at the queues again",S+"Pool.hpp")],["quiescence of all threads of the process"]))
prop("P04","Queued work starts by priority, first come first served within a priority",
 "When a pool's thread picks its next task, it never picks one while an accepted, ready task of higher priority is waiting in the same pool. Among ready tasks of the same pool and priority it picks them in the order in which they were emitted. Waiters for a group get its places by priority and then in order of arrival.",
 ["schedules","programs"],"every set of tasks of the five priority levels waiting at the moment a thread becomes free",
 "tests check one burst per priority on one thread; ordering between concurrent producers, block boundaries and re-queued tasks depends on the schedule",
 A([S+"Pool.cpp",S+"queue/Priority.hpp",S+"queue/TaskQueue.hpp",S+"queue/MPSCQueue.hpp",S+"Group.cpp","src/dsl/word/Priority.hpp"],[("try_dequeue_task over priority buckets",S+"Pool.cpp"),("dequeue_waiter",S+"Group.cpp")],[],["start of reactions against ends of emits"]))
prop("P05","Tasks run only on the threads of their pool, within its concurrency",
 "A queued task runs only on a thread of the pool its reaction names, never on another pool's thread, and a pool never runs more tasks at once than its declared concurrency (the configured number for the default pool). Reactions for the main thread run on the thread that called start and nowhere else.",
 ["schedules","programs","configurations"],"every assignment of reactions to pools, pool concurrency and interleaving, including hand-over of a group's place from another pool's thread",
 "hand-over between pools only happens under contention, so a wrong pool or thread shows only in some schedules",
 A([S+"Pool.cpp",S+"Scheduler.cpp","src/dsl/word/Pool.hpp","src/dsl/word/MainThread.hpp"],[("Pool::start/run","" + S+"Pool.cpp"),("Scheduler::submit resolves the pool",S+"Scheduler.cpp")],[],["thread of each reaction execution"]))
prop("P06","Inline emits and Inline reactions run in the emitter; never-inline never do",
 "An inline emit runs every reaction that does not refuse to be inline on the emitting thread, to completion, before the emit returns, and a reaction marked always inline does so for every emit. A reaction marked never inline is always queued to its own pool. A reaction that may run inline but whose groups are busy is queued instead of running in breach of them.",
 ["schedules","programs"],"every nesting of inline and queued emits in reactions of every inline setting, with the groups free or taken",
 "the group-busy fallback and the races with hand-over occur only under contention",
 A([S+"Scheduler.cpp","src/dsl/word/Inline.hpp","src/dsl/word/emit/Inline.hpp","src/threading/ReactionTask.hpp"],[("run_inline and try_acquire_running_lock",S+"Scheduler.cpp")],[],["emit brackets and thread of executions"]))
prop("P07","Idle reactions fire when their pool or the system becomes idle, and only then",
 "Each time the watched pool (or, if none is named, every pool that counts for idleness) runs out of work, each enabled idle reaction that watches it is run once for that idle period. No idle reaction fires for a pool that has had a task running without interruption since that reaction last fired.",
 ["schedules","programs"],"every program of bursts of work over pools with idle reactions on one pool or on the system, every interleaving of workers going idle",
 "the last-thread-to-go-idle race and the park/hand-over wake-ups only meet in particular schedules; tests run a handful",
 A([S+"Pool.cpp",S+"CountingLock.cpp",S+"Scheduler.cpp","src/dsl/word/Idle.hpp"],[("get_idle_task, CountingLock",S+"Pool.cpp")],[("active, pool_idle, thread_idle","who is idle",S+"Pool.hpp")],["idle reaction executions"]))
prop("P08","Startup runs first: nothing emitted before start runs until startup is done",
 "All Startup reactions run to completion, on the thread that calls start, before any other queued task executes. Messages emitted while reactors are installed are kept and run after start; those emitted for initialisation reach the reactions of reactors installed later as well.",
 ["schedules","programs"],"every set of emits made during installation, in startup reactions and every interleaving of the starting threads",
 "tests check one fixed order; a pool thread that starts early, or a message lost before start, depends on timing",
 A(["src/PowerPlant.cpp",S+"Scheduler.cpp","src/dsl/word/Startup.hpp","src/dsl/word/emit/Initialise.hpp"],[("PowerPlant::start",  "src/PowerPlant.cpp"),("Scheduler::start",S+"Scheduler.cpp")],[],["startup reaction brackets, first executions on every thread"]))
prop("P09","Graceful shutdown completes: accepted tasks finish, then start returns",
 "After shutdown is requested every task accepted before the request still runs, Shutdown reactions run, persistent pools keep accepting and running tasks until the other pools are done, and start returns with nothing left running or waiting and no task executing afterwards. Shutdown always terminates once running callbacks return, from whichever thread and however often it is requested.",
 ["schedules","programs"],"a shutdown request at every point of every program, from reactions, other threads or several at once",
 "where the request lands relative to parked waiters, hand-overs and leaving workers is timing; the suite shuts down at one calm point",
 A([S+"Pool.cpp",S+"Scheduler.cpp",S+"Group.cpp","src/PowerPlant.cpp","src/dsl/word/Shutdown.hpp"],[("Pool::stop, has_work",S+"Pool.cpp"),("Scheduler::start final stop",S+"Scheduler.cpp")],[("accept, running, external_waiters","what keeps workers alive",S+"Pool.hpp")],["return of start, executions after it"]))
prop("P10","Forced shutdown drops queued work and still terminates cleanly",
 "After a forced shutdown the tasks that are still waiting are dropped instead of run, tasks already running finish, and start returns. It does so from any thread, while other threads emit, shut down or hold groups, without deadlock, crash or use of destroyed state.",
 ["schedules","programs"],"a forced shutdown at every point of every program, from any thread, alone or several at once",
 "it is only used by tests as a timeout path; the interleavings with single-consumer pools and group hand-over are not exercised",
 A([S+"Pool.cpp",S+"Scheduler.cpp",S+"Group.cpp"],[("Pool::stop(FORCE), discard_waiters",S+"Pool.cpp")],[],["return of start, executions after the request"]))
prop("P11","A task sees exactly its trigger's data and a consistent latest value of the rest",
 "A triggered reaction receives the very message that triggered it; With data is the latest message of its type at the time of the trigger, never one older than what was latest when the emit began nor newer than what was latest when the reaction was called. A reaction does not run if any required data has never been emitted, unless it is optional, and two copies of data are never torn or swapped between types.",
 ["schedules","programs","histories"],"every history of emits of several types from several threads and every binding of Trigger, With, Optional and And",
 "tests emit in one order on one thread; swaps and stale reads need concurrent emitters between store and read",
 A(["src/dsl/store/DataStore.hpp","src/dsl/store/ThreadStore.hpp","src/dsl/operation/CacheGet.hpp","src/dsl/word/With.hpp","src/dsl/word/Trigger.hpp","src/dsl/word/Optional.hpp","src/util/CallbackGenerator.hpp","src/util/MergeTransients.hpp"],[("ThreadStore / DataStore","src/dsl/store"),("CacheGet","src/dsl/operation/CacheGet.hpp")],[],["data seen by each execution"]))
prop("P12","Last<N> gives the N most recent messages in order",
 "A reaction on the last N messages receives, for each trigger, the messages that triggered it in emit order, oldest first, ending in the one that triggered this execution, never more than N and never fewer than the smaller of N and the number emitted so far. No message is skipped, repeated or out of order.",
 ["histories","schedules","inputs"],"every N, every history of emits and every interleaving with executions of the reaction",
 "tests check one short sequence from one thread",
 A(["src/dsl/word/Last.hpp","src/util/MergeTransients.hpp","src/util/CallbackGenerator.hpp"],[("LastItemStorage","src/dsl/word/Last.hpp"),("MergeTransients","src/util/MergeTransients.hpp")],[],["list seen by each execution"]))
prop("P13","Buffer<N> and Single admit a task exactly when fewer than N are outstanding",
 "A reaction limited to N outstanding tasks (Single is one) never has more than N tasks waiting or running at once, drops a new task only when N are outstanding, and always admits one when fewer are. The count recovers after every task whether it finished, threw or was dropped.",
 ["schedules","programs","histories"],"every history of emits, rejections, executions and exceptions from several threads",
 "an off-by-one in the count under concurrent emits or a leak through a rejected, dropped or throwing task needs a particular interleaving",
 A(["src/dsl/word/Buffer.hpp","src/dsl/word/Single.hpp","src/threading/Reaction.hpp","src/threading/ReactionTask.cpp"],[("Buffer::precondition","src/dsl/word/Buffer.hpp")],[("outstanding count","tasks of the reaction that exist","src/threading/Reaction.hpp")],["executions per reaction against emits"]))
prop("P14","Enable, disable, unbind and Once decide exactly which emits are seen",
 "A reaction does not run for a message whose emit begins after its disable or unbind call returned, and does run for one whose emit begins after its enable or bind call returned. A Once reaction runs for exactly one message in its life. A task accepted before the reaction was disabled or unbound still runs, and (un)binding while others emit neither loses nor duplicates tasks of other reactions nor crashes.",
 ["schedules","histories","programs"],"every interleaving of bind, enable, disable, unbind with emits on other threads, including from inside the reaction itself",
 "tests toggle handles while nothing else runs",
 A(["src/threading/Reaction.cpp","src/threading/ReactionHandle.cpp","src/dsl/word/Once.hpp","src/util/TypeList.hpp","src/dsl/operation/TypeBind.hpp"],[("ReactionHandle","src/threading/ReactionHandle.cpp"),("TypeList snapshots","src/util/TypeList.hpp"),("Once::precondition","src/dsl/word/Once.hpp")],[("enabled","the reaction takes new messages","src/threading/Reaction.hpp")],["calls on handles against executions"]))
prop("P15","An exception from a reaction is contained to that task",
 "When a reaction's callback throws anything, that task counts as finished: its groups, buffer places and scopes are released, its thread goes on with other tasks, and an emitter it ran inline for does not see the exception. No other task is lost or changed by it.",
 ["programs","schedules"],"a throw at any point in any reaction, inline or queued, in groups, buffered, scoped or once, on any pool",
 "tests throw from one plain reaction",
 A(["src/util/CallbackGenerator.hpp","src/threading/ReactionTask.cpp",S+"Pool.cpp"],[("catch in the callback wrapper","src/util/CallbackGenerator.hpp")],[],["executions after a throw"]))
prop("P16","Every and Delay fire at the requested times, exactly as often as requested",
 "A periodic reaction runs once per period, never before its next due time, and its due times do not drift. A delayed emit delivers its message exactly once, never early, whether the time is given as a delay or as a time point. Any number of them may be added or removed by reactions at any time without affecting the others.",
 ["histories","schedules","configurations"],"every set of periods and delays, every order of adding and removing them and every schedule of the threads, in virtual time",
 "real-time tests must allow wide tolerances and run few timers; order and wake-up races show only for particular expiry patterns",
 A(["src/extension/ChronoController.cpp","src/extension/ChronoController.hpp","src/dsl/word/Every.hpp","src/dsl/word/emit/Delay.hpp"],[("ChronoController step loop","src/extension/ChronoController.cpp")],[("tasks","pending timers ordered by due time","src/extension/ChronoController.hpp")],["virtual time of each execution"]))
prop("P17","A watchdog fires if and only if it was not serviced for its period",
 "A watchdog reaction runs when its period has passed since it was bound, last serviced or last fired, and not before; a watchdog that is serviced in time never fires. Watchdogs of different groups and of different keys in a group are independent.",
 ["histories","schedules"],"every sequence of servicings of several watchdogs against their periods, in virtual time",
 "tests check two fixed service patterns in real time",
 A(["src/dsl/word/Watchdog.hpp","src/dsl/word/emit/Watchdog.hpp","src/extension/ChronoController.cpp"],[("WatchdogDataStore and chrono task","src/dsl/word/Watchdog.hpp")],[],["virtual time of executions and servicings"]))
prop("P18","Time travel moves the clock and pending timers as its mode says",
 "After a time-travel request the clock reads the requested time and advances at the requested rate. In absolute mode timers keep their due times (those in the past fire now), in relative mode every pending timer keeps its remaining time, and in nearest mode the clock jumps no further than the next due timer.",
 ["inputs","histories"],"every combination of mode, target, rate and pending timers",
 "tests try a small table of targets around one timer",
 A(["src/clock.hpp","src/clock.cpp","src/extension/ChronoController.cpp","src/message/TimeTravel.hpp"],[("clock::set_clock","src/clock.cpp"),("TimeTravel reaction","src/extension/ChronoController.cpp")],[],["clock values and timer executions"]))
prop("P19","IO reactions run for every readiness of their descriptor, one at a time",
 "A reaction bound to a file descriptor runs whenever the descriptor becomes ready for an event it asked for, sees only events that it asked for (or that its descriptor closed) and that occurred, is never executed concurrently with itself, and is triggered again afterwards if the descriptor is still ready. When it is unbound or its descriptor closes it stops; other descriptors are unaffected.",
 ["histories","schedules"],"every sequence of writes, reads, closes, binds and unbinds on several descriptors, every interleaving",
 "tests use one pipe in one order",
 A(["src/extension/IOController_Posix.ipp","src/extension/IOController.hpp","src/dsl/word/IO.hpp"],[("poll loop, watches, IOFinished","src/extension/IOController_Posix.ipp")],[],["executions with their events against descriptor state"]))
prop("P20","Reaction events tell the true story of each task",
 "While reaction events are observed, every task reports creation and then exactly one of the allowed endings, in order: created, started and finished; or created and blocked; or created and missing data. The causing task, the identity of the reaction, the threads and the order of times reported are those of the real execution, and tasks that observe events cause no further events.",
 ["schedules","programs"],"every program and interleaving, every kind of task ending",
 "tests check one small program",
 A(["src/message/ReactionStatistics.hpp","src/threading/ReactionTask.cpp","src/threading/Reaction.cpp","src/util/CallbackGenerator.hpp","src/dsl/word/emit/Inline.hpp"],[("emit of ReactionEvent","src/threading")],[],["reaction events against executions"]))
prop("P21","A task scope is active exactly within its reaction's execution",
 "Code sees a task scope as active exactly when it executes inside a reaction that declares that scope or inside something run inline from it, on that thread. The scope ends with the reaction even if it throws, never leaks to other tasks of the thread, and nests.",
 ["programs","schedules"],"every nesting of scoped and unscoped reactions, inline or queued, throwing or not",
 "tests check one nesting without exceptions",
 A(["src/dsl/word/TaskScope.hpp"],[("TaskScope::scope Lock","src/dsl/word/TaskScope.hpp")],[],["scope queries in executions"]))
N="src/extension/network/"
prop("P22","Network members find each other and notice departures",
 "Nodes with the same announce address each report every other node as joined exactly once per presence, before delivering anything from it, and report it as left exactly once when it says goodbye or stays silent for longer than the timeout. After any faults stop, every live node knows every other live node and no dead ones.",
 ["fault_sequences","schedules","histories"],"every sequence of starts, clean stops, crashes, restarts, loss, duplication and reordering of packets between several nodes",
 "tests run two nodes over a loss-free loopback",
 A([N+"NUClearNetwork.cpp",N+"NUClearNetwork.hpp"],[("announce, process_packet, timeouts",N+"NUClearNetwork.cpp")],[("targets","known peers",N+"NUClearNetwork.hpp")],["join and leave callbacks"]))
prop("P23","Reliable messages are delivered exactly once despite loss and duplication",
 "A message sent reliably to a node that stays connected is delivered to it exactly once and intact, whatever its size up to 65535 packets, as long as not every packet is lost for ever and no copy is delayed beyond the memory for duplicates (about ten seconds). Loss, duplication and reordering of data, acknowledgements and negative acknowledgements neither lose it nor repeat it, and the sender stops retransmitting once everything is acknowledged.",
 ["fault_sequences","inputs","histories"],"every message size and number of fragments, every pattern of loss, duplication, reordering and delay of each packet",
 "the loopback used by the tests loses nothing, so retransmission and duplicate suppression are never run",
 A([N+"NUClearNetwork.cpp",N+"NUClearNetwork.hpp"],[("send queue, ACK/NACK handling, recent packets",N+"NUClearNetwork.cpp")],[("send_queue, assemblers, recent_packets","reliable protocol state",N+"NUClearNetwork.hpp")],["packet callbacks, packets on the wire"]))
prop("P24","Fragmented messages are delivered intact or not at all",
 "Whatever a node delivers is byte for byte a message that its claimed sender sent, with that message's type hash and reliability, assembled from fragments of that message only. An unreliable message whose fragments all arrive without a pause longer than the reassembly timeout is delivered, in any order of arrival, and one with a fragment missing never is. A message that needs more packets than can be numbered is refused.",
 ["inputs","fault_sequences"],"every payload size around multiples of the fragment size, every order, duplication and interleaving of fragments of several messages and senders",
 "tests send a few payloads in order",
 A([N+"NUClearNetwork.cpp",N+"wire_protocol.hpp"],[("assemblers",N+"NUClearNetwork.cpp")],[],["packet callbacks"]))
prop("P25","Network emits reach exactly the addressed nodes and matching reactions",
 "A network emit is delivered to the reactions for its type on exactly the nodes that its target names (all peers if none is named), and to no other node, with the sender's identity. Reactions for other types do not see it, and the emitter does not receive its own message (unless its own announcements are looped back to it as those of a peer).",
 ["configurations","histories"],"every set of node names, targets and bound types over every order of joins, leaves and (un)binds",
 "tests use one sender, one type and two nodes",
 A([N+"NUClearNetwork.cpp","src/extension/NetworkController.hpp","src/dsl/word/Network.hpp","src/dsl/word/emit/Network.hpp"],[("name_target and type hash routing",N+"NUClearNetwork.cpp")],[],["network reactions"]))
prop("P26","No datagram can crash a node or make it deliver garbage",
 "Whatever bytes arrive on its sockets, a node does not crash, read outside the packet, throw out of its processing or deliver a message no peer sent. Malformed, truncated, foreign or inconsistent packets are ignored and correct traffic continues.",
 ["inputs","fault_sequences"],"every datagram: every length, type, header field combination, and sequence of them mixed with valid traffic",
 "tests only send packets made by the library itself",
 A([N+"NUClearNetwork.cpp",N+"wire_protocol.hpp"],[("process_packet header and length checks",N+"NUClearNetwork.cpp")],[],["callbacks, crashes, sanitizer reports"]))
prop("P27","Log messages appear exactly when their level passes",
 "A log message reaches the log handlers if and only if its level is at least the display level or the log level of the reactor that logs it (or of none if outside reactors), and carries the level, text, reactor and display setting that applied when it was logged.",
 ["inputs","configurations","programs"],"every combination of levels, of set levels and of the place it is logged from, including from several threads and nested inline reactions",
 "tests cover part of the level table from one thread",
 A(["src/PowerPlant.hpp","src/PowerPlant.cpp","src/Reactor.hpp","src/util/Logger.cpp","src/util/Logger.hpp"],[("Logger::log","src/util/Logger.cpp")],[],["LogMessage reactions"]))
prop("P28","Serialisation round trips and rejects wrong sizes",
 "Serialising any supported value and deserialising the bytes gives an equal value, for single values, contiguous containers and iterables of any length. Bytes whose length cannot be a value of the type are rejected with an exception, never read out of bounds; type hashes are equal exactly for equal types.",
 ["inputs"],"every value and every byte string for each family of serialisable type",
 "tests check some values per family",
 A(["src/util/serialise/Serialise.hpp","src/util/serialise/xxhash.cpp"],[("Serialise specialisations","src/util/serialise/Serialise.hpp")],[],["round trips and rejections"]))
prop("P29","A recorded trace file is well formed and complete",
 "While tracing is on, the trace file is a sequence of well-formed records in which every task of traced reactions appears with matching begin and end slices on its thread and causal flow, and every interned name or track is defined before it is used. Stopping and starting tracing yields a file for each session and loses nothing recorded before the stop.",
 ["programs","schedules","histories"],"every program traced, every point at which tracing starts and stops",
 "tests decode one short recording",
 A(["src/extension/TraceController.cpp","src/extension/TraceController.hpp","src/extension/trace"],[("TraceController","src/extension/TraceController.cpp")],[],["decoded trace files"]))
prop("P30","UDP and TCP reactions receive exactly what was sent to their socket",
 "Every datagram that reaches a bound UDP socket triggers the reaction exactly once with its exact payload, sender and local address, and none is invented, merged or cut. Every accepted TCP connection triggers its reaction once with a working descriptor and the true addresses, and unbinding closes the socket.",
 ["inputs","histories","configurations"],"every payload size, every order of sends, connections, binds and unbinds",
 "tests send one fixed string per mode",
 A(["src/dsl/word/UDP.hpp","src/dsl/word/TCP.hpp","src/extension/IOController_Posix.ipp"],[("UDP::read, TCP::get","src/dsl/word")],[],["reaction executions against sends"]))
prop("P31","The work queues are linearizable FIFO queues that never lose or repeat an item",
 "Whatever is put into a queue by any number of threads comes out exactly once, items of one producer come out in the order they were put in, and a consumer finds the queue empty only if at some moment of the attempt no completed insertion was left in it. Items still inside when the queue is destroyed are destroyed with it exactly once and nothing is freed while in use.",
 ["schedules","histories"],"every interleaving of any number of producers and consumers, around every block boundary",
 "the stress tests sample the schedules of a real machine, in which the windows around block changes are tiny",
 A([S+"queue/TaskQueue.hpp",S+"queue/MPSCQueue.hpp",S+"queue/detail/block_ops.hpp"],[("block list with read/write counts",S+"queue/TaskQueue.hpp")],[("read, write, next","positions in each block",S+"queue/TaskQueue.hpp")],["enqueue and dequeue calls"]))
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
