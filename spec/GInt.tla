-------------------------------- MODULE GInt --------------------------------
(* Exact arithmetic used by every specification: Gaussian integers, written   *)
(* <<re, im>>, plus small integer helpers.  Signals and windows fed to the    *)
(* implementation take Gaussian-integer values, so every quantity the library *)
(* is supposed to compute has an exact value here.                            *)
EXTENDS Integers, Sequences, FiniteSets

Z == <<0, 0>>
Conj(a) == <<a[1], -a[2]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Scl(k, a) == <<k * a[1], k * a[2]>>
Sq(a) == a[1] * a[1] + a[2] * a[2]

Abs(k) == IF k < 0 THEN -k ELSE k
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Sgn(k) == IF k < 0 THEN -1 ELSE IF k > 0 THEN 1 ELSE 0

\* Sum over lo..hi of a Gaussian-integer / integer valued operator.
RECURSIVE GSum(_, _, _)
GSum(F(_), lo, hi) == IF lo > hi THEN Z ELSE Add(F(lo), GSum(F, lo + 1, hi))
RECURSIVE ISum(_, _, _)
ISum(F(_), lo, hi) == IF lo > hi THEN 0 ELSE F(lo) + ISum(F, lo + 1, hi)
RECURSIVE MaxOf(_, _, _)
MaxOf(F(_), lo, hi) == IF lo = hi THEN F(lo) ELSE Max(F(lo), MaxOf(F, lo + 1, hi))
RECURSIVE MinOf(_, _, _)
MinOf(F(_), lo, hi) == IF lo = hi THEN F(lo) ELSE Min(F(lo), MinOf(F, lo + 1, hi))

\* Rounding of the non-negative rational a/b, ties to even (IEEE / Python round).
RoundHalfEven(a, b) ==
    LET q == a \div b
        r == a % b
    IN  IF 2 * r < b THEN q
        ELSE IF 2 * r > b THEN q + 1
        ELSE IF q % 2 = 0 THEN q ELSE q + 1

\* Ceiling of a/b for b > 0.
CeilDiv(a, b) == -((-a) \div b)

\* The value the decoders emit where an observed number is not the image of an
\* integer (not finite, or off the grid).  It is never a legal value.
NOTINT == 999983
=============================================================================
