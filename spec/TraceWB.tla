------------------------------- MODULE TraceWB -------------------------------
(* Wide-band ambiguity function.  c.x is the real part of the signal (integers);    *)
(* c.n voices run geometrically from c.F[1]/c.fq to c.F[n]/c.fq (fq divides 720);    *)
(* with z the analytic signal and S(f) its spectrum about the central instant,        *)
(*   W(k, t) = sum over p of F[p + k] S(F[p]) conj S(F[p + 2k]) exp(2 i pi t F[p + 2k])*)
(* for the scale ratio (F[p + 2k] : F[p]) and the delay t.  Observed:                   *)
(*   tau, lt   delays; logarithm of the scale: its sign, and the ratio exp(|theta|/2)    *)
(*             times 10000                                                                *)
(*   obs       the matrix divided by its value at the origin, times 1000, row by row       *)
(*   e0        the value at the origin, times 100 n; oi its imaginary part so scaled        *)
(*   peak      the largest modulus in the matrix over that at the origin, times 10^6         *)
(*   fr        exp(theta step times (n - 1)/2), times 10000                                  *)
(* Step k is row k.                                                                          *)
EXTENDS Spectra, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

Mid(c) == RoundHalfEven(c.N, 2)
Row0(c) == c.n \div 2                       \* rows before the origin's
Half2(c) == RoundHalfEven(c.N, 2)

\* ---- header -------------------------------------------------------------------
AxisBad(c) ==
    (IF Len(c.tau) = c.N /\ \A j \in 1..c.N : c.tau[j] = j - 1 - Mid(c) THEN {} ELSE {"delays"})
    \cup (IF Len(c.sg) # c.n \/ Len(c.lt) # c.n THEN {"scales"}
          ELSE IF /\ \A r \in 1..c.n : c.sg[r] = Sgn(r - 1 - Row0(c))
                  /\ c.exact => \A r \in 1..c.n :
                        LET d == Abs(r - 1 - Row0(c))
                        IN  Abs(c.lt[r] * c.F[1] - 10000 * c.F[d + 1]) <= c.F[1] + (c.F[d + 1] \div 10)
                  /\ c.even
               THEN {} ELSE {"scales"})
PeakBad(c) == (IF c.peak <= 1000001 THEN {} ELSE {"peak-at-origin"})
              \cup (IF c.herm THEN {} ELSE {"symmetry"})
OriginBad(c) == IF Abs(c.oi) <= (Abs(c.e0) \div 100000) + 1 /\ c.e0 > 0 THEN {} ELSE {"origin"}
\* energy of the analytic signal's in-band bins, times 100
EnergyBad(c) ==
    LET e == ISum(LAMBDA b : Weight(c, b) * RawPow(c, b), Bin(c, c.f1), Min(c.N - 1, Bin(c, c.f2)))
    IN  IF Abs(c.e0 - e) <= (e \div 200) + 100 THEN {} ELSE {"energy"}
\* default band: multiples of one twentieth enclosing the bins above a hundredth of the peak
DefBad(c) ==
    LET p == TLCEval([kb \in 0..(Half2(c) - 1) |-> Weight(c, kb) * RawPow(c, kb)])
        top == MaxOf(LAMBDA kb : p[kb], 0, Half2(c) - 1)
        sure == {kb \in 0..(Half2(c) - 1) : p[kb] > top \div 95}
        may == {kb \in 0..(Half2(c) - 1) : p[kb] > top \div 106}
        lo == CHOOSE a \in sure : \A b \in sure : a <= b
        hi == CHOOSE a \in sure : \A b \in sure : a >= b
        H == Half2(c)
        Fl(a) == {(10 * a) \div H} \cup (IF (10 * a) % H = 0 THEN {((10 * a) \div H) - 1} ELSE {})
        Ce(a) == {CeilDiv(10 * a, H)} \cup (IF (10 * a) % H = 0 THEN {((10 * a) \div H) + 1} ELSE {})
        Los == IF c.haslo THEN {(100 * c.f1) \div c.fq} ELSE {Max(1, 5 * a) : a \in Fl(lo)}   \* hundredths
        His == IF c.hashi THEN {(100 * c.f2) \div c.fq} ELSE {5 * a : a \in Ce(hi)}
    IN  IF may # sure THEN {}
        ELSE IF \E a \in Los : \E b \in His : a > 0 /\ Abs(c.fr * a - 10000 * b) <= (2 * a) + (b \div 10) THEN {} ELSE {"default-band"}
RECURSIVE IsPow2(_)
IsPow2(v) == IF v = 1 THEN TRUE ELSE v % 2 = 0 /\ IsPow2(v \div 2)

\* ---- values ---------------------------------------------------------------------
C5(j) == (CosAt(j) + 5) \div 10
S5(j) == (SinAt(j) + 5) \div 10
Ker(c, d) == LET j == d % c.N     \* times 10^5 N
                 G(kb) == <<2 * C5(((kb * j) % c.N) * (720 \div c.N)), 2 * S5(((kb * j) % c.N) * (720 \div c.N))>>
                 b == GSum(G, 1, (c.N - 1) \div 2)
             IN  <<b[1] + 100000 + (IF c.N % 2 = 0 THEN (IF j % 2 = 0 THEN 100000 ELSE -100000) ELSE 0), b[2]>>
Analytic(c) ==   \* times 1000
    LET ker == TLCEval([d \in 0..(c.N - 1) |-> Ker(c, d)])
        Val(t) == LET v == GSum(LAMBDA s : Scl(X(c, s), ker[(t - s) % c.N]), 0, c.N - 1)
                  IN  <<Rnd(v[1], 100 * c.N), Rnd(v[2], 100 * c.N)>>
    IN  TLCEval([t \in 0..(c.N - 1) |-> Val(t)])
Turn(c, t, f) == ((t * f) % c.fq) * (720 \div c.fq)
Raw(c) == LET z == Analytic(c)
          IN  TLCEval([p \in 1..c.n |->
                 LET G(t) == LET a == Turn(c, t - Mid(c), c.F[p]) IN Mul(z[t], <<C3(a), -S3(a)>>)
                     v == GSum(G, 0, c.N - 1)
                 IN  <<Rnd(v[1], 1000), Rnd(v[2], 1000)>>])
\* the spectrum brought to at most 500 in each part
Spec1(c) == LET s == Raw(c)
                top == MaxOf(LAMBDA p : Max(Abs(s[p][1]), Abs(s[p][2])), 1, c.n)
                d == (top \div 500) + 1
            IN  [p \in 1..c.n |-> <<Rnd(s[p][1], d), Rnd(s[p][2], d)>>]
L1(a) == Abs(a[1]) + Abs(a[2])
Den(c, s) == ISum(LAMBDA p : c.F[p] * Sq(s[p]), 1, c.n)
Num(c, s, kk, t) ==
    GSum(LAMBDA p : LET a == Turn(c, t, c.F[p + 2 * kk])
                        w == Mul(Mul(s[p], Conj(s[p + 2 * kk])), <<C3(a), S3(a)>>)
                    IN  Scl(c.F[p + kk], <<Rnd(w[1], 1000), Rnd(w[2], 1000)>>),
         Max(1, 1 - 2 * kk), Min(c.n, c.n - 2 * kk))
\* every spectrum entry is off by less than one, every twiddle by a thousandth
Err(c, s, kk) ==
    ISum(LAMBDA p : c.F[p + kk] * (2 + L1(s[p]) + L1(s[p + 2 * kk]) + ((L1(s[p]) * L1(s[p + 2 * kk])) \div 1000)),
         Max(1, 1 - 2 * kk), Min(c.n, c.n - 2 * kk))
Err0(c, s) == ISum(LAMBDA p : c.F[p] * (2 + 2 * L1(s[p])), 1, c.n)
RowBad(c, r, s) ==
    LET kk == r - 1 - Row0(c)
        den == (Den(c, s) \div 1000) + 1
        tol == (3 * den) + Err(c, s, kk) + Err0(c, s)
    IN  IF Len(c.obs) # c.n \/ Len(c.obs[r]) # 2 * c.N THEN {"shape"}
        ELSE IF \A j \in 1..c.N :
              LET w == Num(c, s, kk, j - 1 - Mid(c))
              IN  /\ Abs((c.obs[r][2 * j - 1] * den) - w[1]) <= tol
                  /\ Abs((c.obs[r][2 * j] * den) - w[2]) <= tol
        THEN {} ELSE {"definition"}

M0(c) == IF c.status = "ok" /\ c.exact THEN Spec1(c) ELSE <<>>
MNext(c, kk, mm) == mm
Header(c) == IF c.shape # <<c.n, c.N>> THEN {"shape"} ELSE AxisBad(c)
Steps(c) == IF c.status = "ok" /\ c.exact /\ Header(c) = {} THEN c.n ELSE 0
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF kk = 0
    THEN Header(c) \cup PeakBad(c) \cup OriginBad(c)
         \cup (IF c.exact /\ Header(c) = {} THEN EnergyBad(c) ELSE {})
         \cup (IF c.defband THEN DefBad(c) ELSE {})
         \cup (IF c.defn /\ ~IsPow2(c.n) THEN {"default-scales"} ELSE {})
    ELSE RowBad(c, kk, mm)
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
