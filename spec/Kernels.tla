------------------------------ MODULE Kernels ------------------------------
(* Definitions of the fixed-grid time-frequency distributions, in the lag     *)
(* domain.  A distribution with n bins of an N-sample signal is, for every    *)
(* instant t, the n-point DFT of an n-entry kernel column; Cell(c, t, r) is   *)
(* entry r of that column.  c is a configuration record:                      *)
(*   kind, N, n, x (signal), w (frequency window), g (time window).           *)
(* Kernels with real output are given at scale 4 and symmetrised, i.e. what   *)
(* the inverse DFT of the real output, times 4, must be.                      *)
EXTENDS GInt

X(c, t) == c.x[t + 1]
W(c, j) == c.w[j + 1]
G(c, j) == c.g[j + 1]
InSig(c, t) == 0 <= t /\ t < c.N
Half(c) == (Len(c.w) - 1) \div 2
HalfG(c) == (Len(c.g) - 1) \div 2

\* ---------------------------------------------------------------- linear --
STFTLag(c, t, tau) ==
    IF Abs(tau) <= Half(c) /\ InSig(c, t + tau)
    THEN Mul(X(c, t + tau), Conj(W(c, Half(c) + tau))) ELSE Z

\* -------------------------------------------------------------- bilinear --
\* Weight of a lag in a length-n DFT: 2 inside, 1 at the shared Nyquist lag.
LagWeight(c, tau) == IF 2 * Abs(tau) < c.n THEN 2 ELSE IF 2 * Abs(tau) = c.n THEN 1 ELSE 0
Centred(c, t, tau) == Mul(X(c, t + tau), Conj(X(c, t - tau)))
BothIn(c, t, tau) == InSig(c, t + tau) /\ InSig(c, t - tau)

WVLag(c, t, tau) ==
    IF LagWeight(c, tau) > 0 /\ BothIn(c, t, tau)
    THEN Scl(LagWeight(c, tau), Centred(c, t, tau)) ELSE Z

PWVLag(c, t, tau) ==
    IF LagWeight(c, tau) > 0 /\ Abs(tau) <= Half(c) /\ BothIn(c, t, tau)
    THEN Scl(LagWeight(c, tau), Mul(W(c, Half(c) + tau), Centred(c, t, tau))) ELSE Z

PMHLag(c, t, tau) ==
    IF 2 * Abs(tau) < c.n /\ Abs(tau) <= Half(c) /\ InSig(c, t - tau)
    THEN Scl(2, Mul(W(c, Half(c) + tau), Mul(X(c, t), Conj(X(c, t - tau))))) ELSE Z

PPageLag(c, t, tau) ==
    IF 0 <= tau /\ tau <= Min(Min(c.n - 1, Half(c)), t)
    THEN Scl(2, Mul(W(c, Half(c) + tau), Mul(X(c, t), Conj(X(c, t - tau))))) ELSE Z

\* Page: every past sample, one per lag below n.
PageLag(c, t, tau) ==
    IF 0 <= tau /\ tau <= Min(c.n - 1, t) THEN Scl(2, Mul(X(c, t), Conj(X(c, t - tau)))) ELSE Z

\* Unwindowed Margenau-Hill: the partner sample s = t - tau runs over the first
\* min(n, N) samples, one per residue class.
MHRow(c, t, r) ==
    LET s == (t - r) % c.n
    IN  IF s < Min(c.n, c.N) THEN Scl(2, Mul(X(c, t), Conj(X(c, s)))) ELSE Z

Lag(c, t, tau) ==
    CASE c.kind = "stft" -> STFTLag(c, t, tau)
      [] c.kind = "wv"   -> WVLag(c, t, tau)
      [] c.kind = "pwv"  -> PWVLag(c, t, tau)
      [] c.kind = "pmh"  -> PMHLag(c, t, tau)
      [] c.kind = "ppage" -> PPageLag(c, t, tau)
      [] c.kind = "page" -> PageLag(c, t, tau)

\* All lags used are below n in modulus: a residue class has two candidates.
Row(c, t, r) == IF c.kind = "mh" THEN MHRow(c, t, r)
                ELSE Add(Lag(c, t, r), Lag(c, t, r - c.n))

\* Real part of a DFT <=> Hermitian-symmetrised kernel (at twice the scale).
Sym(c, t, r) == Add(Row(c, t, r), Conj(Row(c, t, (c.n - r) % c.n)))

Cell(c, t, r) == IF c.kind = "stft" THEN Row(c, t, r) ELSE Sym(c, t, r)

\* --------------------------------------------- smoothed pseudo Wigner-Ville --
\* Neighbours t-m whose two samples at lag +-tau exist and that the time window
\* reaches.
Nbr(c, t, tau) == {m \in -HalfG(c)..HalfG(c) : BothIn(c, t - m, tau)}
RECURSIVE SumOver(_, _, _, _)
SumOver(S, c, t, tau) ==
    IF S = {} THEN Z
    ELSE LET m == CHOOSE m \in S : TRUE
         IN  Add(Scl(G(c, HalfG(c) + m), Centred(c, t - m, tau)), SumOver(S \ {m}, c, t, tau))
RECURSIVE GWeight(_, _)
GWeight(S, c) == IF S = {} THEN 0
                 ELSE LET m == CHOOSE m \in S : TRUE
                      IN  G(c, HalfG(c) + m) + GWeight(S \ {m}, c)
SPWVDen(c, t, tau) == LET d == GWeight(Nbr(c, t, tau), c) IN IF d = 0 THEN 1 ELSE d
SPWVNum(c, t, tau) ==
    IF /\ LagWeight(c, tau) > 0
       /\ Abs(tau) <= Half(c)
       /\ (LagWeight(c, tau) = 1 => BothIn(c, t, tau))
    THEN Scl(LagWeight(c, tau), Mul(W(c, Half(c) + tau), SumOver(Nbr(c, t, tau), c, t, tau)))
    ELSE Z
\* numerator at scale 4 and denominator of the symmetrised kernel entry
SPWVCell(c, t, r) ==
    LET a == Add(SPWVNum(c, t, r), SPWVNum(c, t, r - c.n))
        q == (c.n - r) % c.n
        b == Add(SPWVNum(c, t, q), SPWVNum(c, t, q - c.n))
        lag == IF 2 * r <= c.n THEN r ELSE c.n - r
    IN  [num |-> Add(a, Conj(b)), den |-> SPWVDen(c, t, lag)]

\* --------------------------------------------------------------- spectrogram --
SpecLag(c, t, tau) == STFTLag(c, t, tau)
SpecCol(c, t) == [r \in 0..(c.n - 1) |-> Add(SpecLag(c, t, r), SpecLag(c, t, r - c.n))]
RECURSIVE AutoC(_, _, _, _)
AutoC(col, n, r, s) ==   \* sum over s..n-1 of col[s] conj(col[s-r])
    IF s >= n THEN Z
    ELSE Add(IF col[s] = Z THEN Z ELSE Mul(col[s], Conj(col[(s - r) % n])), AutoC(col, n, r, s + 1))
SpecNum(c, t, r) == AutoC(SpecCol(c, t), c.n, r, 0)
SpecDen(c, t) ==
    LET F(tau) == IF InSig(c, t + tau) THEN Sq(W(c, Half(c) + tau)) ELSE 0
    IN  ISum(F, -Half(c), Half(c))

\* -------------------------------------------------------- ambiguity function --
AmbCell(c, lag, t) ==
    IF InSig(c, t) /\ InSig(c, t + lag) /\ InSig(c, t - lag) THEN Mul(X(c, t + lag), Conj(X(c, t - lag))) ELSE Z

\* ------------------------------------------------------------------ axes ----
\* FFT-order frequency axis, times 2n
FFTAxis(n, k) == IF 2 * k < n THEN 2 * k ELSE 2 * (k - n)
WVAxis(n, k) == k
=============================================================================
