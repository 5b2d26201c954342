------------------------------ MODULE TraceSpec ------------------------------
(* Spectrogram columns and smoothed pseudo Wigner-Ville columns.  Their kernel *)
(* entries are rational: observed as [[p,q], ...] (re and im interleaved) and  *)
(* compared by cross-multiplication with the specification's num / den.        *)
EXTENDS Kernels, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

Steps(c) == IF c.status = "ok" THEN Len(c.obs) ELSE 0
M0(c) == 0
MNext(c, kk, mm) == 0

Eq(o, num, den) == o[1] * den = num * o[2]

SpecBad(c, kk) ==
    LET t == c.inst[kk]
        d == SpecDen(c, t)
        col == SpecCol(c, t)
        o == c.obs[kk]
    IN  IF Len(o) # 2 * c.n THEN {"rows"}
        ELSE IF \E r \in 0..(c.n - 1) :
                  LET v == AutoC(col, c.n, r, 0)
                  IN  ~(Eq(o[2 * r + 1], v[1], d) /\ Eq(o[2 * r + 2], v[2], d))
             THEN {"energy-normalised-square"} ELSE {}

SmoothBad(c, kk) ==
    LET t == c.inst[kk]
        o == c.obs[kk]
    IN  IF Len(o) # 2 * c.n THEN {"rows"}
        ELSE IF \E r \in 0..(c.n - 1) :
                  LET v == SPWVCell(c, t, r)
                  IN  ~(Eq(o[2 * r + 1], v.num[1], 4 * v.den) /\ Eq(o[2 * r + 2], v.num[2], 4 * v.den))
             THEN {"smoothed-kernel"} ELSE {}

Judge(c, kk, mm) ==
    IF kk = 0
    THEN (IF c.status # "ok" THEN {"completes"} ELSE
           (IF c.shape # <<c.n, Len(c.inst)>> THEN {"shape"} ELSE {})
           \cup (IF c.real THEN {} ELSE {"reality"})
           \cup (IF c.neg > 0 THEN {"non-negative"} ELSE {}))
    ELSE IF c.kind = "spec" THEN SpecBad(c, kk) ELSE SmoothBad(c, kk)

INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
