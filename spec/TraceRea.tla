------------------------------- MODULE TraceRea -------------------------------
(* Reassigned distributions.  c.kind is one of pwv, pmh, ppage (displaced in      *)
(* frequency only), spec, spwv, morlet (displaced in both directions).  Step k is  *)
(* column k of the run, read cell by cell:                                         *)
(*   tq  the plain value, times 100                lv  its level, for the threshold *)
(*   fr, fc  the field's row and column, -1 where it is infinite                    *)
(*   ts, rs  plain and reassigned value as tokens (one common scale)               *)
(* The model state m is the matrix being filled by the scatter loop.  Plain values  *)
(* and displacements are computed in fixed point with an error bound, so a shift is *)
(* only demanded where the bound leaves one or two candidates.                      *)
EXTENDS Kernels, Deriv, Tables, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
OneD(c) == c.kind \in {"pwv", "pmh", "ppage"}
Cols(c) == Len(c.inst)
Dt(c) == IF Cols(c) > 1 THEN c.inst[2] - c.inst[1] ELSE 1

\* ---- fixed-point Fourier transforms ---------------------------------------------
Cs(c) == IF c.kind = "spwv" THEN 1000 ELSE 10000
CosN(c, j) == (CosAt((j % c.n) * (720 \div c.n)) + (500000 \div Cs(c))) \div (1000000 \div Cs(c))
SinN(c, j) == (SinAt((j % c.n) * (720 \div c.n)) + (500000 \div Cs(c))) \div (1000000 \div Cs(c))
\* value of the transform of col (a function on 0..n-1) at row r
Dft(c, col, r) ==
    LET F(q) == <<col[q][1] * CosN(c, q * r) + col[q][2] * SinN(c, q * r),
                  col[q][2] * CosN(c, q * r) - col[q][1] * SinN(c, q * r)>>
    IN  GSum(F, 0, c.n - 1)
Mass(c, col) == ISum(LAMBDA q : Abs(col[q][1]) + Abs(col[q][2]), 0, c.n - 1)

\* ---- kernels ------------------------------------------------------------------
Derived(c) == [c EXCEPT !.w = TLCEval([j \in 1..L(c) |-> <<Der(c, j - 1, 1), Der(c, j - 1, 2)>>])]
Timed(c) == [c EXCEPT !.w = TLCEval([j \in 1..L(c) |-> Scl(j - 1 - Half(c), c.w[j])])]

\* smoothed pseudo Wigner-Ville: lag tau of window ww, at scale 60, neighbours weighted by 1 or m
SmW(c, t, tau, timed) ==
    LET S == Nbr(c, t, tau)
        den == SPWVDen(c, t, tau)
        RECURSIVE Go(_)
        Go(T) == IF T = {} THEN Z
                 ELSE LET q == CHOOSE q \in T : TRUE
                      IN  Add(Scl(G(c, HalfG(c) + q) * (IF timed THEN q ELSE 1), Centred(c, t - q, tau)), Go(T \ {q}))
    IN  IF 2 * Abs(tau) < c.n /\ Abs(tau) <= Half(c) THEN Scl(60 \div den, Go(S)) ELSE Z
SmLag(c, t, tau, timed) == IF 2 * Abs(tau) < c.n /\ Abs(tau) <= Half(c)
                           THEN Mul(W(c, Half(c) + tau), SmW(c, t, tau, timed)) ELSE Z

\* Kernel column for: "p" the plain window, "d" the derived one, "t" the time-weighted one
Col(c, t, how) ==
    LET cc == IF how = "d" THEN Derived(c) ELSE IF how = "t" /\ c.kind = "spec" THEN Timed(c) ELSE c
        sc == [cc EXCEPT !.kind = IF c.kind = "spec" THEN "stft" ELSE c.kind]
        Raw(q) == IF c.kind = "spwv"
                  THEN LET tau == IF 2 * q <= c.n THEN q ELSE q - c.n IN SmLag(cc, t, tau, how = "t")
                  ELSE Row(sc, t, q)
        jump == IF c.kind = "ppage" /\ how = "d"
                THEN 2 * 2 * (L(c) - 1) * W(c, Half(c))[1] * Sq(X(c, t)) ELSE 0
    IN  TLCEval([q \in 0..(c.n - 1) |-> IF q = 0 THEN Add(Raw(0), <<jump, 0>>) ELSE Raw(q)])

\* ---- Morlet wavelets ------------------------------------------------------------
Mlen(c) == CASE c.sg = 2 -> 8 [] c.sg = 3 -> 12 [] c.sg = 4 -> 15
Freq(c, r) == IF 2 * r <= c.n THEN r ELSE r - c.n
HTau(c, f, tau) ==      \* 10^4 times the wavelet of frequency f at offset tau
    LET g == GaussT[c.sg][Abs(f * tau) + 1]
    IN  <<(g * CosN(c, f * tau)) \div 10000, -((g * SinN(c, f * tau)) \div 10000)>>
Mor(c, t, r, timed) ==
    LET f == Freq(c, r)
        K == CeilDiv(Mlen(c), Abs(f))
        F(tau) == Scl(IF timed THEN Abs(f) * tau ELSE 1, Mul(HTau(c, f, tau), X(c, t + tau)))
    IN  IF f = 0 THEN Z ELSE GSum(F, Max(-K, -t), Min(K, c.N - 1 - t))
MorMass(c, t, r, timed) ==
    LET f == Freq(c, r)
        K == CeilDiv(Mlen(c), Abs(f))
        F(tau) == (Abs(X(c, t + tau)[1]) + Abs(X(c, t + tau)[2])) * (IF timed THEN Abs(f * tau) ELSE 1)
    IN  IF f = 0 THEN 0 ELSE 3 * ISum(F, Max(-K, -t), Min(K, c.N - 1 - t))

\* ---- ratios -------------------------------------------------------------------
\* [v, e, ok]: v/500 is (num a) / (den b) up to e/500;  den in 1..2000, den b < 8*10^7
Quo(num, den, a, b) ==
    LET top == Abs(num) * a
        bot == den * b
        q == top \div bot
        r1 == (top % bot) * 20
        r2 == (r1 % bot) * 25
    IN  Sgn(num) * (500 * q + 25 * (r1 \div bot) + (r2 \div bot))
Open == [v |-> 0, e |-> 1000, ok |-> FALSE]
Ratio(num, en, den, ed, a, b) ==
    LET s == (den \div 2000) + 1
        d == den \div s
        n1 == num \div s
        e1 == (ed \div s) + 1
        e2 == (en \div s) + 1
    IN  IF den <= 0 \/ d < 100 \/ 4 * e1 >= d \/ Abs(n1) + e2 > 2000000000 \div a THEN Open
        ELSE LET v == Quo(n1, d, a, b)
                 e == IF Abs(v) > 100000 THEN 1000
                      ELSE ((4 * Abs(v) * e1) \div (3 * d)) + ((4 * Quo(e2, d, a, b)) \div 3) + (Abs(v) \div 1000) + 3
             IN  [v |-> v, e |-> e, ok |-> e <= 200]
\* real ratios of complex values, <<re, im>> parts
CRatio(t, et, p, ep, part, a, b) ==
    LET s == (Max(Abs(p[1]), Abs(p[2])) \div 3000) + 1
        P == <<p[1] \div s, p[2] \div s>>
        T == <<t[1] \div s, t[2] \div s>>
        eP == (ep \div s) + 1
        eT == (et \div s) + 1
        aP == Abs(P[1]) + Abs(P[2])
        aT == Abs(T[1]) + Abs(T[2])
    IN  IF aP < 150 \/ 8 * eP > aP \/ aT > 300000 \/ eT > 100000 THEN Open
        ELSE LET num == IF part = "re" THEN T[1] * P[1] + T[2] * P[2] ELSE T[2] * P[1] - T[1] * P[2]
             IN  Ratio(num, aT * eP + aP * eT + eT * eP, Sq(P), 2 * aP * eP, a, b)
\* whole shifts a ratio may round to
Shifts(v) == {s \in ((v.v - 450) \div 500)..((v.v + 450) \div 500 + 1) : Abs(500 * s - v.v) <= 250 + v.e}
RowsFor(c, r, v, sg) == {(r + sg * s) % c.n : s \in Shifts(v)}
Clip(c, j) == Max(0, Min(Cols(c) - 1, j))
ColsFor(c, j, v, sg) == {Clip(c, j + sg * s) : s \in Shifts(v)}

\* ---- clauses on one cell -----------------------------------------------------
EngTop(c) == IF c.kind \in {"pwv", "spec"} THEN MaxOf(LAMBDA j : c.inst[j], 1, Cols(c)) ELSE c.N - 1
EngBot(c) == IF c.kind \in {"pwv", "spec"} THEN MinOf(LAMBDA j : c.inst[j], 1, Cols(c)) ELSE 0
Energy(c) == ISum(LAMBDA s : Sq(X(c, s)), EngBot(c), EngTop(c))
EngLen(c) == EngTop(c) - EngBot(c) + 1
\* mean power times a millionth, against the level; within one unit either is allowed
Above(c, lv) == lv * EngLen(c) * c.thrD > Energy(c) * c.thrN + EngLen(c) * c.thrD
Below(c, lv) == lv * EngLen(c) * c.thrD < Energy(c) * c.thrN - EngLen(c) * c.thrD

Moved(c, j, r) == c.fr[j][r + 1] # -1
FieldBad(c, j, r) ==
    LET f == c.fr[j][r + 1]
        g == c.fc[j][r + 1]
        lv == c.lv[j][r + 1]
    IN  (IF f = -1 /\ Above(c, lv) THEN {"kept-above-threshold"} ELSE {})
        \cup (IF f # -1 /\ Below(c, lv) THEN {"moved-below-threshold"} ELSE {})
        \cup (IF f # -1 /\ ~(f \in 0..(c.n - 1) /\ (OneD(c) \/ g \in 0..(Cols(c) - 1))) THEN {"field-range"} ELSE {})

Mk(v, e) == [v |-> v, e |-> e]
\* plain values and displacements; P, D, T are [v, e] with complex v
PlainBad(c, j, r, P) ==
    LET o == c.tq[j][r + 1]
        w0 == W(c, Half(c))[1]
        w1 == IF c.kind \in {"pwv", "pmh", "ppage"} THEN 200 * w0 ELSE 600
        q == <<P.v[1] \div 100, P.v[2] \div 100>>
        e == (P.e \div 100) + 1
        big == (2 * (Abs(q[1]) + Abs(q[2])) + 2 * e) * e
        ok == CASE c.kind \in {"pwv", "pmh", "ppage", "spwv"} -> Abs(o * w1 - P.v[1]) <= P.e + Abs(w1)
                [] c.kind = "spec" -> LET d == SpecDen(c, c.inst[j])
                                      IN  IF d = 0 THEN TRUE ELSE Abs(o * 100 * d - Sq(q)) <= big + 100 * d
                [] c.kind = "morlet" -> LET f == Abs(Freq(c, r))
                                        IN  Abs(o * 100 * c.sg - Sq(q) * f) <= big * f + 100 * c.sg
    IN  IF ok THEN {} ELSE {"plain"}

MoveBad(c, j, r, P, D, T) ==
    LET f == c.fr[j][r + 1]
        g == c.fc[j][r + 1]
        dt == Dt(c)
        a == c.n * 113
        b == 2 * (L(c) - 1) * 710
        ss == Sgn(P.v[1])
        row == CASE c.kind = "morlet" ->
                      CRatio(T.v, T.e, P.v, P.e, "im", Abs(Freq(c, r)) * c.n * 113, 710 * c.sg * c.sg)
                 [] c.kind = "spec" -> CRatio(D.v, D.e, P.v, P.e, "im", a, b)
                 [] OTHER -> Ratio(ss * D.v[2], D.e, Abs(P.v[1]), P.e, a, b)
        rsign == IF c.kind = "morlet" THEN 1 ELSE -1
        col == CASE OneD(c) -> Open
                 [] c.kind = "morlet" -> CRatio(T.v, T.e, P.v, P.e, "re", 1, Abs(Freq(c, r)) * Abs(dt))
                 [] c.kind = "spec" -> CRatio(T.v, T.e, P.v, P.e, "re", 1, Abs(dt))
                 [] c.kind = "spwv" -> Ratio(ss * T.v[1], T.e, Abs(P.v[1]), P.e, 1, Abs(dt))
        csign == (IF c.kind = "spwv" THEN -1 ELSE 1) * Sgn(dt)
    IN  (IF row.ok /\ f \notin RowsFor(c, r, row, rsign) THEN {"row-displacement"} ELSE {})
        \cup (IF ~OneD(c) /\ col.ok /\ g \notin ColsFor(c, j - 1, col, csign) THEN {"column-displacement"} ELSE {})

Impulses(c) == {t \in 0..(c.N - 1) : X(c, t) # Z}
GatherBad(c, j, r) ==
    LET own == {q \in 1..Cols(c) : c.inst[q] \in Impulses(c)}
    IN  IF OneD(c) \/ Cardinality(Impulses(c)) # 1 \/ own = {} \/ (c.fc[j][r + 1] + 1) \in own THEN {} ELSE {"impulse-column"}

ColumnBad(c, j) ==
    LET t == c.inst[j]
        mor == c.kind = "morlet"
        pc == IF mor THEN 0 ELSE Col(c, t, "p")
        dc == IF mor THEN 0 ELSE Col(c, t, "d")
        tc == IF mor \/ OneD(c) THEN pc ELSE Col(c, t, "t")
        pm == IF mor THEN 0 ELSE Mass(c, pc)
        dm == IF mor THEN 0 ELSE Mass(c, dc)
        tm == IF mor THEN 0 ELSE Mass(c, tc)
        Bad(r) ==
            LET P == IF mor THEN Mk(Mor(c, t, r, FALSE), MorMass(c, t, r, FALSE)) ELSE Mk(Dft(c, pc, r), pm)
                D == IF mor THEN P ELSE Mk(Dft(c, dc, r), dm)
                T == IF mor THEN Mk(Mor(c, t, r, TRUE), MorMass(c, t, r, TRUE))
                     ELSE IF OneD(c) THEN P ELSE Mk(Dft(c, tc, r), tm)
                fb == FieldBad(c, j, r)
            IN  fb \cup (IF c.disp THEN PlainBad(c, j, r, P) ELSE {})
                \cup (IF fb = {} /\ Moved(c, j, r)
                      THEN GatherBad(c, j, r) \cup (IF c.disp THEN MoveBad(c, j, r, P, D, T) ELSE {}) ELSE {})
    IN  UNION {Bad(r) : r \in 0..(c.n - 1)}

\* ---- the scatter loop ------------------------------------------------------------
Dest(c, j, r) == IF Moved(c, j, r)
                 THEN <<c.fr[j][r + 1], IF OneD(c) THEN j - 1 ELSE c.fc[j][r + 1]>>
                 ELSE <<r, j - 1>>
RECURSIVE Put(_, _, _, _)
Put(c, j, r, mm) ==
    IF r >= c.n THEN mm
    ELSE LET d == Dest(c, j, r)
         IN  Put(c, j, r + 1,
                 IF d[1] \in 0..(c.n - 1) /\ d[2] \in 0..(Cols(c) - 1)
                 THEN [mm EXCEPT ![d[2] + 1][d[1] + 1] = @ + c.ts[j][r + 1]] ELSE mm)
\* cells that were sent to (r, j)
Arrivals(c, r, j) == Cardinality({p \in (0..(c.n - 1)) \X (1..Cols(c)) : Dest(c, p[2], p[1]) = <<r, j - 1>>})
ScatterBad(c, mm) ==
    IF \A j \in 1..Cols(c) : \A r \in 1..c.n :
          \/ mm[j][r] = c.rs[j][r]
          \/ Abs(mm[j][r] - c.rs[j][r]) <= 1 + Arrivals(c, r - 1, j) /\ (mm[j][r] = 0 => c.rs[j][r] = 0 \/ Arrivals(c, r - 1, j) > 0)
    THEN {} ELSE {"scatter"}

M0(c) == IF c.status = "ok" THEN [j \in 1..Cols(c) |-> [r \in 1..c.n |-> 0]] ELSE 0
MNext(c, kk, mm) == Put(c, kk, 0, mm)
Ready(c) == c.status = "ok" /\ c.shape = <<c.n, Cols(c), c.n, Cols(c), c.n, Cols(c)>>
Steps(c) == IF Ready(c) THEN Cols(c) ELSE 0
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF kk = 0 THEN (IF ~Ready(c) THEN {"shape"} ELSE {}) \cup (IF c.real THEN {} ELSE {"reality"})
    ELSE ColumnBad(c, kk) \cup (IF kk = Cols(c) THEN ScatterBad(c, mm) ELSE {})
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
