SPECIFICATION Spec
CONSTANTS
 Inst = {15, 33, 34}
 DefThreads = 2
 Emitters = {10}
 Workers = {1, 2}
 MaxM = 2
 MaxE = 14
 Nest = FALSE
 Ctl = FALSE
 Modes = {0, 1}
INVARIANTS Exclusive Pools Bounded OnceEach OnceOnly Dischargeable Closable MayRest NoneLeft
CHECK_DEADLOCK FALSE
