SPECIFICATION Spec
CONSTANTS
 Inst = {0, 1}
 DefThreads = 1
 Emitters = {10}
 Workers = {1}
 MaxM = 2
 MaxE = 11
 Nest = FALSE
 Ctl = TRUE
 Modes = {0}
INVARIANTS Exclusive Pools Bounded OnceEach OnceOnly Dischargeable Closable MayRest NoneLeft
CHECK_DEADLOCK FALSE
