SPECIFICATION Spec
CONSTANTS R = 2 C = 2 A = {0, 3, 4} Thr = 1 Dr = {3, 4} Dc = {4, 6} XLen = 4 XA = {0} Emit = FALSE
INVARIANTS Inside Conserved OrderFree Still
CHECK_DEADLOCK FALSE
