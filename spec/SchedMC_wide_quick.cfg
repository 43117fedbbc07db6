SPECIFICATION Spec
CONSTANTS
 Inst = {5, 38}
 DefThreads = 3
 Emitters = {10}
 Workers = {1, 2, 3}
 MaxM = 2
 MaxE = 14
 Nest = FALSE
 Ctl = FALSE
 Modes = {0}
INVARIANTS Exclusive Pools Bounded OnceEach OnceOnly Dischargeable Closable MayRest NoneLeft
CHECK_DEADLOCK FALSE
