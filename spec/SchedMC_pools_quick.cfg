SPECIFICATION Spec
CONSTANTS
 Inst = {6, 7, 8}
 DefThreads = 1
 Emitters = {10}
 Workers = {0, 1, 2, 3}
 MaxM = 2
 MaxE = 11
 Nest = FALSE
 Ctl = FALSE
 Modes = {0}
INVARIANTS Exclusive Pools Bounded OnceEach OnceOnly Dischargeable Closable MayRest NoneLeft
CHECK_DEADLOCK FALSE
