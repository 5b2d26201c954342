-------------------------------- MODULE Deriv --------------------------------
(* Derivative of a window c.w of L >= 2 samples, at scale 2(L-1): the line      *)
(* through the end points is removed, the rest extended by zero, centred        *)
(* differences taken, and the line's slope and end steps put back.              *)
EXTENDS GInt
L(c) == Len(c.w)
DW(c, j, p) == c.w[j + 1][p]
\* 2(L-1) (w - line), zero outside
Base(c, j, p) ==
    IF j < 0 \/ j >= L(c) THEN 0
    ELSE LET a == DW(c, 0, p) b == DW(c, L(c) - 1, p)
         IN  2 * (L(c) - 1) * DW(c, j, p) - (L(c) - 1) * (a + b) - (b - a) * (2 * j - (L(c) - 1))
Der(c, j, p) ==
    LET a == DW(c, 0, p) b == DW(c, L(c) - 1, p)
    IN  ((Base(c, j + 1, p) - Base(c, j - 1, p)) \div 2) + 2 * (b - a)
        + (IF j = 0 THEN (L(c) - 1) * (a + b) ELSE 0) - (IF j = L(c) - 1 THEN (L(c) - 1) * (a + b) ELSE 0)
=============================================================================
