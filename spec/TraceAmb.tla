------------------------------- MODULE TraceAmb -------------------------------
(* Narrow-band ambiguity function: column per lag, decoded over Doppler to the *)
(* lag product x[t+lag] conj(x[t-lag]); axes compared exactly.                 *)
EXTENDS Kernels, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

Steps(c) == IF c.status = "ok" THEN Len(c.obs) ELSE 0
M0(c) == 0
MNext(c, kk, mm) == 0

DefLags(N) == IF N % 2 = 0 THEN [j \in 1..(N - 1) |-> j - (N \div 2)]
              ELSE [j \in 1..N |-> j - 1 - ((N - 1) \div 2)]
ReqLags(c) == IF c.deflag THEN DefLags(c.N) ELSE c.lags
\* ascending Doppler axis times n, containing zero: even n starts at -n/2
Doppler(n) == [j \in 1..n |-> j - 1 - (n \div 2)]

Judge(c, kk, mm) ==
    IF kk = 0
    THEN (IF c.status # "ok" THEN {"completes"} ELSE
           (IF c.shape # <<c.n, Len(ReqLags(c))>> THEN {"shape"} ELSE {})
           \cup (IF c.lagout # ReqLags(c) THEN {"lag-axis"} ELSE {})
           \cup (IF c.xi # Doppler(c.n) THEN {"doppler-axis"} ELSE {}))
    ELSE LET lag == ReqLags(c)[kk]
             o == c.obs[kk]
         IN  IF Len(o) # 2 * c.n THEN {"rows"}
             ELSE IF \E t \in 0..(c.n - 1) : <<o[2 * t + 1], o[2 * t + 2]>> # AmbCell(c, lag, t)
                  THEN {"lag-product"} ELSE {}

INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
