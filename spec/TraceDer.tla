------------------------------- MODULE TraceDer -------------------------------
(* Derivative of a window w of L >= 2 samples.  Step k is sample k-1, observed as  *)
(* 2(L-1) dw (real and imaginary part).  The model removes the line through the     *)
(* end points, extends by zero, takes centred differences and puts the line's slope *)
(* and end steps back.                                                              *)
EXTENDS Deriv, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
M0(c) == 0
MNext(c, kk, mm) == 0
Steps(c) == IF c.status = "ok" /\ Len(c.obs) = 2 * L(c) THEN L(c) ELSE 0
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF kk = 0 THEN (IF Len(c.obs) # 2 * L(c) THEN {"length"} ELSE {})
    ELSE IF c.obs[2 * kk - 1] = Der(c, kk - 1, 1) /\ c.obs[2 * kk] = Der(c, kk - 1, 2) THEN {}
    ELSE IF kk = 1 \/ kk = L(c) THEN {"ends"} ELSE {"interior"}
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
