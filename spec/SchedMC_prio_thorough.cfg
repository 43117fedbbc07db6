SPECIFICATION Spec
CONSTANTS
 Inst = {16, 17, 19}
 DefThreads = 1
 Emitters = {10, 11}
 Workers = {1}
 MaxM = 3
 MaxE = 17
 Nest = FALSE
 Ctl = FALSE
 Modes = {0}
INVARIANTS Exclusive Pools Bounded OnceEach OnceOnly Dischargeable Closable MayRest NoneLeft
CHECK_DEADLOCK FALSE
