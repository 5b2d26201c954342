------------------------------- MODULE TraceUtil -------------------------------
(* Integer utilities; one observation per element (or one per call).               *)
EXTENDS GInt, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
RECURSIVE P2(_)
P2(e) == IF e = 0 THEN 1 ELSE 2 * P2(e - 1)
\* least e with 2^e >= n: 2^e >= n and (e = 0 or 2^(e-1) < n), for 1 <= n <= 2^30
NextPow(n, e) == e \in 0..30 /\ P2(e) >= n /\ (e = 0 \/ P2(e - 1) < n)
\* 2^e + d given as <<e, d>>, 31 <= e and |d| < 2^30: between 2^(e-1) and 2^(e+1)
NextPowBig(p, o) == p[1] >= 31 /\ Abs(p[2]) < P2(30) /\ o = (IF p[2] <= 0 THEN p[1] ELSE p[1] + 1)
\* closest factor pair
Divides(a, n) == n % a = 0
RECURSIVE Isqrt(_, _, _)                     \* largest d in lo..hi with d^2 <= n; lo^2 <= n
Isqrt(n, lo, hi) == IF lo >= hi THEN lo
                    ELSE LET mid == (lo + hi + 1) \div 2
                         IN  IF mid * mid <= n THEN Isqrt(n, mid, hi) ELSE Isqrt(n, lo, mid - 1)
Factors(n, p) == /\ Len(p) = 2 /\ p[1] > 0 /\ p[2] > 0 /\ p[1] <= n /\ p[2] <= n
                 /\ (n % p[1] = 0) /\ (n \div p[1] = p[2])
                 /\ LET a == Min(p[1], p[2]) IN \A d \in (a + 1)..Isqrt(n, 1, 46340) : ~Divides(d, n)
\* element = v/4
NearestOdd(v, o) == LET f == v \div 4 IN o = (IF f % 2 = 0 THEN f + 1 ELSE f)
Modulo(v, n, o) == o \in 1..n /\ (o - v) % n = 0
\* complex elements: reduced part by part; an array without imaginary parts is a real one
CModulo(c, kk) ==
    LET v == c.x[kk] o == c.obs[kk]
    IN  IF \A a \in 1..Len(c.x) : c.x[a][2] = 0
        THEN Modulo(v[1], c.n, o[1]) /\ o[2] = 0
        ELSE /\ o[1] \in 0..c.n /\ (o[1] - v[1]) % c.n = 0
             /\ o[2] \in 0..c.n /\ (o[2] - v[2]) % c.n = 0
\* differences in quarters of 10^-decimals, none half way
Round4(d) == (d + 2) \div 4
Linear(c) == \A a, b \in 1..Len(c.v) : Round4(c.v[a]) = Round4(c.v[b])
\* one column of the inverse Zak transform, n in {1, 2, 4}: sqrt(n) times sample
Rot(a, q) == CASE q % 4 = 0 -> a [] q % 4 = 3 -> <<a[2], -a[1]>>
               [] q % 4 = 2 -> <<-a[1], -a[2]>> [] q % 4 = 1 -> <<-a[2], a[1]>>
Zak(c, kk) == \* sample kk-1 = im + r * cols
    LET cols == Len(c.x[1]) n == Len(c.x)
        im == (kk - 1) % cols r == (kk - 1) \div cols
        f(j) == Rot(c.x[j + 1][im + 1], (4 \div n) * r * j)
    IN  GSum(f, 0, n - 1)
\* the shifted power spectrum, n in {1, 2, 4}
Dft(v, q) == LET n == Len(v) f(j) == Rot(v[j + 1], -((4 \div n) * q * j)) IN GSum(f, 0, n - 1)
Spectrum(v, kk) == LET n == Len(v) IN Sq(Dft(v, (kk - 1 - (n \div 2)) % n))

Size(c) == CASE c.kind \in {"nextpow", "nextpow-big", "odd", "modulo", "divider"} -> Len(c.v)
             [] c.kind = "cmodulo" -> Len(c.x)
             [] c.kind = "linear" -> 1
             [] c.kind = "izak" -> Len(c.x) * Len(c.x[1])
             [] c.kind = "izak-back" -> Len(c.v)
             [] c.kind = "spectrum" -> Len(c.v)
Ok(c, kk) ==
    LET o == c.obs[kk]
    IN  CASE c.kind = "nextpow" -> NextPow(c.v[kk], o)
          [] c.kind = "nextpow-big" -> NextPowBig(c.v[kk], o)
          [] c.kind = "divider" -> Factors(c.v[kk], o)
          [] c.kind = "odd" -> NearestOdd(c.v[kk], o)
          [] c.kind = "modulo" -> Modulo(c.v[kk], c.n, o)
          [] c.kind = "cmodulo" -> CModulo(c, kk)
          [] c.kind = "linear" -> o = (IF Linear(c) THEN 1 ELSE 0)
          [] c.kind = "izak" -> <<c.obs[kk][1], c.obs[kk][2]>> = Zak(c, kk)
          [] c.kind = "izak-back" -> o = c.v[kk]
          [] c.kind = "spectrum" -> o = Spectrum(c.v, kk)
M0(c) == 0
MNext(c, kk, mm) == 0
Steps(c) == IF c.status = "ok" /\ Len(c.obs) = Size(c) THEN Size(c) ELSE 0
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF kk = 0 THEN (IF Len(c.obs) # Size(c) THEN {"length"} ELSE {})
    ELSE IF Ok(c, kk) THEN {} ELSE {c.kind}
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
