SPECIFICATION Spec
CONSTANTS
 Inst = {9, 10, 11, 12}
 DefThreads = 1
 Emitters = {10}
 Workers = {1, 2}
 MaxM = 3
 MaxE = 14
 Nest = TRUE
 Ctl = FALSE
 Modes = {0, 1}
INVARIANTS Exclusive Pools Bounded OnceEach OnceOnly Dischargeable Closable MayRest NoneLeft
CHECK_DEADLOCK FALSE
