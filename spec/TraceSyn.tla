------------------------------- MODULE TraceSyn -------------------------------
(* Composite signals.  One recorded behaviour is one generated signal, observed   *)
(* sample by sample (or spectral bin by spectral bin):                             *)
(*  atom   d[k] = -ln(|s|/|A|) T^2 / pi  (squared distance from the centre),       *)
(*         ph[k] = phase in units of 1/(2M) turn; -1 stands for an exact zero       *)
(*  atoms  res = 10^9 max |sum - sum of the single atoms|                           *)
(*  merge  hp: (h^2)^root E2 10^(root r/10) / ... as a rational, see MergeBad       *)
(*  wave   len, energy; klauder: lnx[k] = 10^6 ln(|X_k| / |X_1|)                    *)
(*  mexhat len, sym, peak, zero mean, second moment                                 *)
(*  gd     len, energy, mean, law, nu, spectral phase and modulus                   *)
(*  dop    am4 = 1/am^4, phase and law in millionths                                *)
(*  scale  len, energy, correlation with the expected dilated pulse                 *)
EXTENDS GInt, Tables, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
U == 1000000
Wrap(v) == LET r == v % U IN IF 2 * r > U THEN r - U ELSE r
Clip(v, lo, hi) == Max(lo, Min(v, hi))
\* a * b / q without overflow for a up to 10^9 (q > 0): floor((a \div q) ...)
MulDiv(a, b, q) == b * (a \div q) + ((b * (a % q)) \div q)

\* ---- atoms -------------------------------------------------------------------
AT0(c) == RoundHalfEven(Clip(c.p, c.q, c.q * c.n), c.q)
AF(c) == Clip(c.a, 0, c.M \div 2)                       \* over M (M even)
AtomPhase(c, kk) == (2 * AF(c) * (kk - 1 - AT0(c)) + (IF c.neg THEN c.M ELSE 0)) % (2 * c.M)
AtomBad(c, kk) ==
    LET e == (kk - AT0(c)) * (kk - AT0(c))
    IN  IF c.d[kk] = -1
        THEN (IF 22 * e >= 7 * 450 * c.T2 THEN {} ELSE {"envelope"})
        ELSE (IF c.d[kk] = e THEN {} ELSE {"envelope"})
             \cup (IF c.ph[kk] = AtomPhase(c, kk) THEN {} ELSE {"tone"})

\* ---- mixing: y = x1 + h x2, h^2 E2 / N2 * 10^(r/10) = E1 / N1 -----------------------
\* r = 10 e (or 5 e with squares): hp = [p, q] is h^2 (or h^4)
RECURSIVE Pow10(_)
Pow10(e) == IF e = 0 THEN 1 ELSE 10 * Pow10(e - 1)
En(v) == LET f(j) == Sq(v[j]) IN ISum(f, 1, Len(v))
MergeBad(c) ==
    LET a == En(c.x) b == En(c.y)                       \* same length
        la == IF c.root = 1 THEN a ELSE a * a
        lb == IF c.root = 1 THEN b ELSE b * b
        lhs == c.hp[1] * lb * (IF c.e > 0 THEN Pow10(c.e) ELSE 1)
        rhs == c.hp[2] * la * (IF c.e < 0 THEN Pow10(-c.e) ELSE 1)
    IN  (IF c.len # Len(c.x) THEN {"length"} ELSE {})
        \cup (IF c.off # 0 THEN {"first-plus-multiple"} ELSE {})
        \cup (IF lhs = rhs THEN {} ELSE {"energy-ratio"})

\* ---- wavelets ----------------------------------------------------------------
WaveBad(c) == (IF c.len # c.n THEN {"length"} ELSE {})
              \cup (IF Abs(c.energy - U) <= 1 THEN {} ELSE {"unit-energy"})
              \cup (IF c.band >= 900000 THEN {} ELSE {"band"})
              \cup (IF c.dc = 0 THEN {} ELSE {"zero-mean"})
\* spectrum exp(-g f) f^(g p/q - 1/2), g = 2 pi attenuation, f = k/n, relative to k = 1
KlBad(c, kk) ==
    LET want == -((c.g * (kk - 1) * 10000) \div c.n) * 100
                + MulDiv(8 * LnT[kk], 2 * c.g * c.p - c.q, 2 * c.q)
    IN  IF c.lnx[kk] = 10 ^ 8 \/ Abs(c.lnx[kk] - want) <= 400 + 10 * c.g THEN {} ELSE {"spectrum"}
MexBad(c) == (IF c.len # 2 * CeilDiv(3 * c.q, 2 * c.p) + 1 THEN {"length"} ELSE {})
             \cup (IF c.sym # 0 THEN {"symmetric"} ELSE {})
             \cup (IF c.peak # U THEN {"peak"} ELSE {})
             \cup (IF 5 * c.p <= c.q /\ (Abs(c.mean) > 1 \/ Abs(c.mom2 - U) > 2) THEN {"width"} ELSE {})

\* ---- power-law group delay ------------------------------------------------------
\* rate = r/8; nu_j = j / (2 lnu), j = 1..lnu; law and phase in 10^-4 / 10^-6 units
Lnu(c) == CeilDiv(c.n, 2)
L2(c) == 2 * Lnu(c)
\* n/10 for degrees below one, zero above, n at one
GdT0(c) == IF c.deg2 = 2 THEN 10000 * c.n ELSE IF c.deg2 < 2 THEN 1000 * c.n ELSE 0
Back(c) == IF c.r < 0 /\ c.deg2 # 2 THEN 10000 * (c.n + 1) ELSE 0
\* d nu^(deg-1) in 10^-4, deg = deg2 / 2
GdTerm(c, j) ==
    CASE c.deg2 = 2 -> 0
      [] c.deg2 = 4 -> (2500 * c.n * c.r * j) \div L2(c)                              \* d = 2 n r/8
      [] c.deg2 = 6 -> (((5000 * c.n * j) \div L2(c)) * c.r * j) \div L2(c)           \* d = 4 n r/8
      [] c.deg2 = 0 -> (1250 * c.r * L2(c)) \div j                                    \* d = r/8
      [] c.deg2 = -2 -> (((1250 * c.r * L2(c)) \div j) * L2(c)) \div (j * c.n)        \* d = r/8/n
      [] c.deg2 = 1 -> (((125000 * 10000) \div SqrtT[j]) * c.r * c.n) \div 8            \* n even
      [] c.deg2 = -1 -> (c.n * c.r * SqrtT[j]) \div (100 * j * j)                      \* n even
      [] c.deg2 = 3 -> (c.r * SqrtT[2 * j * c.n]) \div 100                             \* n even, n^2 in the table
      [] c.deg2 = 5 -> (((c.r * SqrtT[2 * j * c.n]) \div 100) * 2 * j) \div c.n        \* idem
GdLaw(c, j) == GdT0(c) + Back(c) + GdTerm(c, j)
\* spectral phase at nu_j in 10^-6 turn: -(t0 nu + integral of the term)
GdPhase(c, j) ==
    -(IF c.deg2 < 2 THEN (100000 * c.n * j) \div L2(c) ELSE 0)
    - (CASE c.deg2 = 4 -> MulDiv((125000 * c.n * j) \div L2(c), c.r * j, L2(c))
         [] c.deg2 = 6 -> MulDiv(MulDiv((166667 * c.n * j) \div L2(c), c.r * j, L2(c)), j, L2(c))
         [] c.deg2 = 0 -> c.r * (LnT[j] - LnT[L2(c)])
         [] c.deg2 = -2 -> -((125000 * c.r * L2(c)) \div (j * c.n))
         [] c.deg2 = 1 -> 2 * c.r * SqrtT[j]
         [] c.deg2 = -1 -> -((2 * c.r * SqrtT[j]) \div j)
         [] c.deg2 = 3 -> MulDiv(2 * SqrtT[2 * j * c.n], c.r * j, 3 * c.n)
         [] c.deg2 = 5 -> MulDiv(4 * SqrtT[2 * j * c.n], c.r * j * j, 5 * c.n * c.n))
\* sixth power of the modulus relative to bin 2 (twelfth when deg is not whole): (j/2)^(deg-2), as p/q
GdModOk(c, j) ==
    IF c.mod6[j][1] = -1 \/ (c.deg2 = -1 /\ j > 8) THEN TRUE   \* past the decoder's denominators
    ELSE IF c.mod6[j][1] = NOTINT THEN FALSE
    ELSE LET e == IF c.deg2 % 2 = 0 THEN (c.deg2 \div 2) - 2 ELSE c.deg2 - 4
             a == IF e >= 0 THEN j ELSE 2
             b == IF e >= 0 THEN 2 ELSE j
             ae == Abs(e)
         IN  c.mod6[j][1] * (b ^ ae) = c.mod6[j][2] * (a ^ ae)
GdBad(c, j) ==
    (IF Abs(c.law[j] - GdLaw(c, j)) <= c.ltol THEN {} ELSE {"law"})
    \cup (IF c.nu[j] = j THEN {} ELSE {"frequency"})
    \cup (IF c.deg2 = 2 \/ j = 1 \/ Abs(Wrap(c.sph[j] - GdPhase(c, j))) <= c.ptol THEN {} ELSE {"delay"})
    \cup (IF c.deg2 = 2 \/ j = 1 \/ GdModOk(c, j) THEN {} ELSE {"modulus"})
GdHead(c) == (IF c.len # c.n \/ Len(c.law) # Lnu(c) \/ Len(c.nu) # Lnu(c) THEN {"length"} ELSE {})
             \cup (IF Abs(c.energy - U) <= 1 THEN {} ELSE {"unit-energy"})
             \cup (IF c.mean = 0 THEN {} ELSE {"zero-mean"})

\* ---- Doppler: speed = one unit per sample, times in 1/h samples ---------------------
DJ(c, kk) == c.h * kk - (IF c.deft0 THEN (c.h * c.n) \div 2 ELSE c.tc)
DD(c, kk) == c.h * c.h * c.D2 + DJ(c, kk) * DJ(c, kk)         \* h^2 distance^2
Ratio(j, s) == LET u == j * 125000 * 1000 IN 1000 * (u \div s) + 2 * (((u % s) * 500) \div s)
DopLaw(c, kk) == 1000 * c.a - MulDiv((c.a * Ratio(DJ(c, kk), SqrtT[DD(c, kk)])) \div 1000, c.p, c.q)
DopPhase(c, kk) == ((1000 * c.a * DJ(c, kk)) \div c.h)
                   - MulDiv((8 * SqrtT[DD(c, kk)] * c.p) \div (c.q * c.h), c.a, 1000)
DopBad(c, kk) ==
    (IF c.am4[kk] = DD(c, kk) THEN {} ELSE {"amplitude"})
    \cup (IF c.mod[kk] = 1 THEN {} ELSE {"unit-modulus"})
    \cup (IF Abs(Wrap(c.ph[kk] - DopPhase(c, kk))) <= 6 + c.a \div 50 THEN {} ELSE {"tone"})
    \cup (IF Abs(c.law[kk] - DopLaw(c, kk)) <= 5 THEN {} ELSE {"law"})

ScaleBad(c) == (IF c.len # 2 * CeilDiv(c.n * c.p, 2 * c.q) THEN {"length"} ELSE {})
               \cup (IF Abs(c.energy - U) <= 1 THEN {} ELSE {"energy"})
               \cup (IF c.corr >= c.floor THEN {} ELSE {"dilation"})

M0(c) == 0
MNext(c, kk, mm) == 0
Steps(c) ==
    IF c.status # "ok" THEN 0
    ELSE CASE c.kind = "atom" -> IF c.len = c.n THEN c.n ELSE 0
           [] c.kind = "gd" -> IF Len(c.law) = Lnu(c) /\ Len(c.nu) = Lnu(c) /\ c.len = c.n THEN Lnu(c) ELSE 0
           [] c.kind = "dop" -> IF c.len = c.n THEN c.n ELSE 0
           [] c.kind = "wave" -> Len(c.lnx)
           [] OTHER -> 0
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF kk = 0
    THEN CASE c.kind \in {"atom", "dop"} -> (IF c.len = c.n THEN {} ELSE {"length"})
           [] c.kind = "atoms" -> (IF c.len = c.n THEN {} ELSE {"length"}) \cup (IF c.res = 0 THEN {} ELSE {"superposition"})
           [] c.kind = "merge" -> MergeBad(c)
           [] c.kind = "wave" -> WaveBad(c)
           [] c.kind = "mexhat" -> MexBad(c)
           [] c.kind = "gd" -> GdHead(c)
           [] c.kind = "scale" -> ScaleBad(c)
    ELSE CASE c.kind = "atom" -> AtomBad(c, kk)
           [] c.kind = "gd" -> GdBad(c, kk)
           [] c.kind = "dop" -> DopBad(c, kk)
           [] c.kind = "wave" -> KlBad(c, kk)

INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
