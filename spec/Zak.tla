--------------------------------- MODULE Zak ---------------------------------
(* The lattice of a Gabor analysis of N samples with n instants and oversampling  *)
(* q: m rows, hop mb in time, nb = N/m; the placement of a synthesis window of nh   *)
(* samples; and the frame operator of the window in its band (Walnut) form, which   *)
(* GaborDesign proves equal to analysis followed by synthesis.                      *)
EXTENDS GInt
Rows(N, n, q) == (q * N) \div n
Hop(N, n) == N \div n
Bands(N, n, q) == n \div q
\* half-even rounding of a/b, a of any sign
HE(a, b) == LET s == CeilDiv(Abs(a), b) + 2 IN RoundHalfEven(a + 2 * s * b, b) - 2 * s
\* first sample (from 0) of the synthesis window
Start(N, n, q, nh) == HE(N - nh + 1, 2) - HE(2 * Hop(N, n) - 1 - nh, 2 * q) - 1
\* window sample at k (any integer), laid on the circle of N samples
At(h, s, N, k) == LET j == (k - s) % N IN IF j < Len(h) THEN h[j + 1] ELSE 0
Band(h, s, N, n, r, mm, k) == LET f(j) == At(h, s, N, k - (j * Hop(N, n))) * At(h, s, N, k - (j * Hop(N, n)) - (r * mm)) IN ISum(f, 0, n - 1)
\* frame operator applied to g (a function of any integer)
Frame(h, s, N, n, q, g(_), k) ==
    LET mm == Rows(N, n, q)
        f(r) == Band(h, s, N, n, r, mm, k) * g((k - (r * mm)) % N)
    IN  mm * ISum(f, 0, Bands(N, n, q) - 1)
=============================================================================
