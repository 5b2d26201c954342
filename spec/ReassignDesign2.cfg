SPECIFICATION Spec
CONSTANTS R = 3 C = 1 A = {0, 3, 4} Thr = 1 Dr = {0, 4, 5, 9} Dc = {3, 5} XLen = 4 XA = {0} Emit = FALSE
INVARIANTS Inside Conserved OrderFree Still
PROPERTY Finishes
CHECK_DEADLOCK FALSE
