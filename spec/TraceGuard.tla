------------------------------- MODULE TraceGuard -------------------------------
(* Validated calls.  calls[k] = [f, p], obs[k] = [r (refused), e (what was raised), s *)
(* (shapes of the results)].                                                           *)
EXTENDS Guards, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
M0(c) == 0
MNext(c, kk, mm) == mm + (IF Verdict(c.calls[kk].f, c.calls[kk].p) = "refuse" THEN 1 ELSE 0)
Steps(c) == IF c.status = "ok" THEN Len(c.calls) ELSE 0
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF kk = 0 THEN {}
    ELSE LET f == c.calls[kk].f p == c.calls[kk].p o == c.obs[kk] v == Verdict(f, p)
         IN  (IF v = "refuse" /\ ~o.r THEN {"refused"} ELSE {})
             \cup (IF v = "accept" /\ o.r THEN {"accepted"} ELSE {})
             \cup (IF v = "accept" /\ ~o.r /\ Shapes(f, p) # << >> /\ o.s # Shapes(f, p) THEN {"size"} ELSE {})
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
