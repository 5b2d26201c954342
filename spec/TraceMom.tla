------------------------------- MODULE TraceMom -------------------------------
(* Localisation.  The model state walks the density and accumulates its energy    *)
(* and its first two moments: m = <<E, S1, S2>>.  Observed:                         *)
(*   tm E          (time: mean sample index),  T^2/(4 pi) E^2                       *)
(*   fm N E        (frequency: mean of k),      B^2/(4 pi) N^2 E^2                   *)
(* where the density is |x_k|^2, or |X_k|^2 with k in -N/2..(N-1)/2.                 *)
EXTENDS GInt, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
N(c) == Len(c.v)
\* the DFT of a signal of 1, 2 or 4 samples is made of Gaussian integers
Rot(a, q) == CASE q % 4 = 0 -> a [] q % 4 = 1 -> <<a[2], -a[1]>>
               [] q % 4 = 2 -> <<-a[1], -a[2]>> [] q % 4 = 3 -> <<-a[2], a[1]>>
Dft(v, kk) == LET n == Len(v)
                  f(j) == Rot(v[j + 1], (4 \div n) * kk * j)
              IN  GSum(f, 0, n - 1)
\* density at step j = 1..N and the coordinate it sits at
Dens(c, j) == IF c.how = "freq-signal" THEN Sq(Dft(c.v, j - 1)) ELSE Sq(c.v[j])
Coord(c, j) == IF c.how = "time" THEN j - 1
               ELSE IF 2 * (j - 1) < N(c) THEN j - 1 ELSE j - 1 - N(c)
M0(c) == <<0, 0, 0>>
MNext(c, j, mm) == LET d == Dens(c, j) x == Coord(c, j)
                   IN  <<mm[1] + d, mm[2] + d * x, mm[3] + d * x * x>>
Steps(c) == IF c.status = "ok" THEN N(c) ELSE 0
Judge(c, j, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF j < N(c) THEN {}
    ELSE (IF c.E # mm[1] THEN {"decoder"} ELSE {})
         \cup (IF c.mean # mm[2] THEN {"mean"} ELSE {})
         \cup (IF c.var # mm[1] * mm[3] - mm[2] * mm[2] THEN {"spread"} ELSE {})
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
