SPECIFICATION Spec
CONSTANTS R = 2 C = 2 A = {2} Thr = 1 Dr = {0} Dc = {0} XLen = 4 XA = {1, 2, 4} Emit = TRUE
CHECK_DEADLOCK FALSE
