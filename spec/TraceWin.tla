------------------------------- MODULE TraceWin -------------------------------
(* Default windows.  The distribution of a constant (or impulse) signal shows  *)
(* the lag window itself; each kernel entry is decoded to the index at which a *)
(* Hamming window of c.L samples takes that value (folded to its first half),  *)
(* -1 for an exact zero, NOTINT for anything else.                             *)
EXTENDS Kernels, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

Steps(c) == IF c.status = "ok" THEN Len(c.obs) ELSE 0
M0(c) == 0
MNext(c, kk, mm) == 0

\* default window length for n bins: a quarter of them (a tenth for the time
\* window), made odd
MadeOdd(q) == q + 1 - (q % 2)
DefLen(c) == MadeOdd(c.n \div c.div)
DefHalf(c) == (DefLen(c) - 1) \div 2

InLag(c, t, tau) ==
    CASE c.kind = "stft" -> InSig(c, t + tau)
      [] c.kind \in {"wv", "pwv"} -> BothIn(c, t, tau)
      [] c.kind = "pmh" -> InSig(c, t - tau)
      [] c.kind = "ppage" -> InSig(c, t - Abs(tau))
      [] c.kind = "full" -> TRUE

Index(c, t, r) ==
    LET tau == IF 2 * r <= c.n THEN r ELSE r - c.n
    IN  IF Abs(tau) <= DefHalf(c) /\ InLag(c, t, tau) THEN DefHalf(c) - Abs(tau) ELSE -1

\* wv-like kernels with one row per offset (impulse method): obs entry j is the
\* window value at offset j - 1 - c.off from the centre
Judge(c, kk, mm) ==
    IF kk = 0 THEN (IF c.status # "ok" THEN {"completes"}
                    ELSE IF c.L # DefLen(c) THEN {"decoder-length"} ELSE {})
    ELSE IF c.mode = "lag"
    THEN (IF Len(c.obs[kk]) # c.n THEN {"rows"}
          ELSE IF \E r \in 0..(c.n - 1) : c.obs[kk][r + 1] # Index(c, c.inst[kk], r)
               THEN {"default-window"} ELSE {})
    ELSE \* offsets
         (IF \E j \in 1..Len(c.obs[kk]) :
              LET d == Abs(j - 1 - c.off)
              IN  c.obs[kk][j] # (IF d <= DefHalf(c) THEN DefHalf(c) - d ELSE -1)
          THEN {"default-window"} ELSE {})

INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
