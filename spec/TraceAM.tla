------------------------------- MODULE TraceAM -------------------------------
(* Amplitude modulations.  Observation k is sample k-1, mapped back through the *)
(* inverse of the shape to the (scaled) distance from the centre:               *)
(*   gauss    -ln(y) T^2 q^2 / pi            = (q(k) - p)^2     (k counted from 1) *)
(*   bilat    -ln(y) T q / sqrt(2 pi)        = |q(k-1) - p|                      *)
(*   unilat   -ln(y) T q / sqrt(pi)          = q(k-1) - p, or an exact zero      *)
(*   rect     the value, 0 or 1                                                  *)
(*   triang   (1 - y) L q                    = |q(k-1) - p|, or an exact zero    *)
(* where the centre is t0 = p/q and T2 = T^2 is an integer.  -1 stands for an    *)
(* exact zero (or a value below 1e-300).                                         *)
EXTENDS GInt, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

P(c) == IF c.deft0 THEN c.q * RoundHalfEven(c.n, 2) ELSE c.p
T2(c) == IF c.defT THEN 4 * c.n ELSE c.T2
Q2(c) == c.q * c.q

\* the model state walks the sample grid: m is q * (index counted as the shape does)
M0(c) == IF c.shape = "gauss" THEN 0 ELSE -c.q
MNext(c, kk, mm) == mm + c.q
Steps(c) == IF c.status = "ok" THEN Len(c.obs) ELSE 0

D(c, mm) == Abs(mm - P(c))
\* 4 pi d^2 against a T^2 q^2, with 333/106 < pi < 355/113
Inside(c, d, a) == 4 * d * d * 355 <= a * T2(c) * Q2(c) * 113
Outside(c, d, a) == 4 * d * d * 333 > a * T2(c) * Q2(c) * 106
Tiny(c, num, den) == 3 * num >= 600 * den

Ok(c, o, mm) ==
    LET d == D(c, mm)
    IN  CASE c.shape = "gauss" -> o = d * d \/ (o = -1 /\ Tiny(c, d * d, T2(c) * Q2(c)))
          [] c.shape = "bilat" -> o = d \/ (o = -1 /\ c.deep /\ d * d >= 10000 * T2(c) * Q2(c))
          [] c.shape = "unilat" -> IF mm < P(c) THEN o = -1
                                   ELSE o = d \/ (o = -1 /\ c.deep /\ d * d >= 10000 * T2(c) * Q2(c))
          [] c.shape = "rect" -> IF Inside(c, d, 3) THEN o = 1
                                 ELSE IF Outside(c, d, 3) THEN o = 0 ELSE o \in {0, 1}
          [] c.shape = "triang" -> IF Inside(c, d, 10) THEN o = d
                                   ELSE IF Outside(c, d, 10) THEN o = -1 ELSE o \in {d, -1}

Judge(c, kk, mm) ==
    IF kk = 0
    THEN (IF c.status # "ok" THEN {"completes"} ELSE
          (IF Len(c.obs) # c.n THEN {"length"} ELSE {})
          \cup (IF c.usedT2 # T2(c) \/ c.flat # TRUE THEN {"decoder"} ELSE {}))
    ELSE IF Ok(c, c.obs[kk], mm) THEN {} ELSE {"sample"}

INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
