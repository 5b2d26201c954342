------------------------------- MODULE Spectra -------------------------------
(* Power spectrum of a real integer signal c.x of c.N samples (N divides 720), in  *)
(* fixed point, and its in-band bins.                                               *)
EXTENDS GInt, Tables
X(c, t) == c.x[t + 1]
C3(j) == (CosAt(j) + 500) \div 1000
S3(j) == (SinAt(j) + 500) \div 1000
\* power spectrum at bin kb, times 100
Rnd(v, d) == (2 * v + d) \div (2 * d)
RawPow(c, kb) ==
    LET F(t) == <<X(c, t) * C3(((kb * t) % c.N) * (720 \div c.N)), -(X(c, t) * S3(((kb * t) % c.N) * (720 \div c.N)))>>
        v == GSum(F, 0, c.N - 1)
    IN  IF Abs(v[1]) + Abs(v[2]) <= 400000 THEN Sq(<<Rnd(v[1], 10), Rnd(v[2], 10)>>) \div 100
        ELSE Sq(<<Rnd(v[1], 100), Rnd(v[2], 100)>>)
\* weight of bin kb in the analytic signal's energy; bin nearest to the frequency f / c.fq
Weight(c, kb) == IF kb = 0 \/ 2 * kb = c.N THEN 1 ELSE IF 2 * kb < c.N THEN 4 ELSE 0
Bin(c, f) == RoundHalfEven(f * (c.N - 2), c.fq)
=============================================================================
