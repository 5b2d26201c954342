------------------------------- MODULE TraceAff -------------------------------
(* Affine distributions.  c.x is the real part of the signal (integers), c.N       *)
(* divides 720, the band is c.f1/c.fq .. c.f2/c.fq.  Observed:                      *)
(*   fs    the frequency axis, times 80000          ts  the time axis                *)
(*   rows  the matrix times 2^c.e2 (largest row sum about 10^4), row by row           *)
(* and for the scalogram                                                             *)
(*   wt    the wavelet transform times 1000 (re, im interleaved), row by row          *)
(*   wn    the same scaled to a largest modulus of 1000, pn the matrix so scaled       *)
(* Step k is voice k.  The model state m collects the row sums.                        *)
EXTENDS Spectra, Dilate, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
NV(c) == c.nv
Cols(c) == Len(c.inst)                   \* the requested instants, increasing
Scalo(c) == c.kind = "scalogram"

\* ---- axes -----------------------------------------------------------------------
Geometric(c) == \A p, q \in 1..NV(c) : ((p + q) % 2 = 0) =>
                   Abs(c.fs[p] * c.fs[q] - c.fs[(p + q) \div 2] * c.fs[(p + q) \div 2]) <= 3 * c.fs[Max(p, q)]
AxisBad(c) ==
    (IF c.ts = c.inst THEN {} ELSE {"time-axis"})
    \cup (IF Len(c.fs) # NV(c) THEN {"voices"}
          ELSE (IF (c.haslo /\ Abs(c.fs[1] * c.fq - 80000 * c.f1) > c.fq) \/ (c.hashi /\ Abs(c.fs[NV(c)] * c.fq - 80000 * c.f2) > c.fq)
                THEN {"band"} ELSE {})
               \cup (IF Geometric(c) THEN {} ELSE {"geometric-axis"}))

\* ---- spectrum of the signal ---------------------------------------------------------
Pow100(c, kb) == IF Scalo(c) /\ kb = 0 THEN 0 ELSE RawPow(c, kb)
\* energy of the analytic signal's bins, times 100
InBand(c) ==
    LET off == IF Scalo(c) THEN 1 ELSE 0
    IN  ISum(LAMBDA kb : Weight(c, kb) * Pow100(c, kb), Bin(c, c.f1) + off, Min(c.N - 1, Bin(c, c.f2) + off))

\* ---- integral of the matrix over its axes, times 100 2^e2; rs are the trapezoid row sums
RowInt(c, r) == ISum(LAMBDA j : (c.rows[r][j] + c.rows[r][j + 1]) * (c.inst[j + 1] - c.inst[j]), 1, Cols(c) - 1) \div 2
MulDiv(a, b, q) == (b * (a \div q)) + ((b * (a % q)) \div q)
Integral(c, rs) ==   \* frequency steps at 80000
    ISum(LAMBDA r : MulDiv(rs[r] + rs[r + 1], c.fs[r + 1] - c.fs[r], 1600), 1, NV(c) - 1)
Times2(v, e) == IF e >= 0 THEN v * (2 ^ e) ELSE v \div (2 ^ (-e))
Regular(c) == \A j \in 2..(Cols(c) - 1) : c.inst[j + 1] - c.inst[j] = c.inst[2] - c.inst[1]
EnergyBad(c, rs) ==
    LET a == Integral(c, rs) * NV(c)
        b == Times2(InBand(c), c.e2)
    IN  IF Abs(a - b) <= (b \div 50) + 2000 THEN {} ELSE {"energy"}

\* ---- |S(f)|^2 at voice r (frequency at 10^5), times 100
Step(c, r, t) == ((((c.fs[r] * 5) \div 4) * (t - c.mid) * 18) \div 2500) % 720
Voice(c, r) ==
    LET F(t) == <<X(c, t) * C3(Step(c, r, t)), -(X(c, t) * S3(Step(c, r, t)))>>
        v == GSum(F, 0, c.N - 1)
    IN  Sq(<<v[1] \div 100, v[2] \div 100>>)
MargBad(c, rs) ==
    LET s == TLCEval([r \in 1..NV(c) |-> Voice(c, r)])
        st == ISum(LAMBDA r : s[r], 1, NV(c))
        rt == ISum(LAMBDA r : rs[r], 1, NV(c))
        \* both brought to a total of ten thousand
        N4(v, tot) == IF Abs(v) < 200000 THEN (v * 10000) \div tot ELSE v \div (tot \div 10000)
        top == MaxOf(LAMBDA r : N4(s[r], st), 1, NV(c))
    IN  IF rt < 1000 \/ st < 100 THEN {"marginal"}
        ELSE IF \A r \in 1..NV(c) : Abs(N4(rs[r], rt) - N4(s[r], st)) * 100 <= c.mtol * top + 300 THEN {} ELSE {"marginal"}

\* ---- brightest instant of a voice: within 3 of t0 + c0/f -------------------------------
Brightest(c, r) == {t \in 1..Cols(c) : \A u \in 1..Cols(c) : c.rows[r][u] <= c.rows[r][t]}
RidgeBad(c, r, rs, top) ==
    IF 5 * rs[r] < top THEN {}
    ELSE IF \A t \in Brightest(c, r) :
              LET d == (c.inst[t] - c.t0) * c.fs[r] - c.c0 * 80000
              IN  d <= c.late * c.fs[r] /\ -d <= c.early * c.fs[r]
         THEN {} ELSE {"instant"}

\* ---- scalogram --------------------------------------------------------------------
\* analytic signal of the centred signal: kernel times 1000 N, signal times N
Ker(c, d) == LET j == d % c.N
                 F(kb) == <<2 * C3(((kb * j) % c.N) * (720 \div c.N)), 2 * S3(((kb * j) % c.N) * (720 \div c.N))>>
                 b == GSum(F, 1, (c.N - 1) \div 2)
             IN  <<b[1] + 1000 + (IF c.N % 2 = 0 THEN (IF j % 2 = 0 THEN 1000 ELSE -1000) ELSE 0), b[2]>>
Analytic(c) ==   \* times 1000
    LET ker == TLCEval([d \in 0..(c.N - 1) |-> Ker(c, d)])
        tot == ISum(LAMBDA t : X(c, t), 0, c.N - 1)
        Val(t) == LET v == GSum(LAMBDA s : Scl(c.N * X(c, s) - tot, ker[(t - s) % c.N]), 0, c.N - 1)
                  IN  <<v[1] \div (c.N * c.N), v[2] \div (c.N * c.N)>>
    IN  TLCEval([t \in 0..(c.N - 1) |-> Val(t)])
\* voice r has frequency c.vf[r]/c.vq (vq divides 720), width 48 / nk[r] rounded to nha[r], scale sa[r]
\* (Mexican hat: c.mh[r] is the hat of that frequency, times 10^4)
Ha(c, r, tau) ==  \* times 1000
    IF c.mh # <<>> THEN <<Rnd(c.mh[r][tau + c.nha[r] + 1], 10), 0>> ELSE
    LET g == TenT[Abs(tau) * c.nk[r] + 1]
        j == ((c.vf[r] * tau) % c.vq) * (720 \div c.vq)
    IN  <<(g * C3(j)) \div 10000, (g * S3(j)) \div 10000>>
Wt(c, z, r, t) ==  \* times 1000
    LET F(tau) == IF t - tau \in 0..(c.N - 1) THEN Mul(z[t - tau], Ha(c, r, tau)) ELSE Z
        v == GSum(F, -c.nha[r], c.nha[r])
        q == SqrtT[c.sa[r]] \div 125         \* 1000 sqrt a
    IN  <<v[1] \div q, v[2] \div q>>
WtBad(c, r) ==
    LET z == Analytic(c)
        hs == ISum(LAMBDA tau : IF c.mh # <<>> THEN Abs(c.mh[r][tau + c.nha[r] + 1]) \div 10 + 1
                                ELSE TenT[Abs(tau) * c.nk[r] + 1] \div 10, -c.nha[r], c.nha[r])
        zs == MaxOf(LAMBDA t : Abs(z[t][1]) + Abs(z[t][2]), 0, c.N - 1)
        tol == 3 + (3 * hs + (zs * (4 * c.nha[r] + 2))) \div (SqrtT[c.sa[r]] \div 125)
    IN  IF \A t \in 0..(Cols(c) - 1) :
              LET w == Wt(c, z, r, c.inst[t + 1])
              IN  Abs(c.wt[r][2 * t + 1] - w[1]) <= tol /\ Abs(c.wt[r][2 * t + 2] - w[2]) <= tol
        THEN {} ELSE {"wavelet-transform"}
PropBad(c, r) ==
    LET W2(t) == (c.wn[r][2 * t + 1] * c.wn[r][2 * t + 1]) + (c.wn[r][2 * t + 2] * c.wn[r][2 * t + 2])
    IN  IF \A t \in 0..(Cols(c) - 1) : Abs(1000 * c.pn[r][t + 1] - W2(t)) <= 4000
        THEN {} ELSE {"proportional"}

\* ---- default band -------------------------------------------------------------------
Half(c) == RoundHalfEven(c.N, 2)
Pw(c, kb) == RawPow(c, kb)
DefBad(c) ==
    LET p == TLCEval([kb \in 0..(Half(c) - 1) |-> Pw(c, kb)])
        top == MaxOf(LAMBDA kb : p[kb], 0, Half(c) - 1)
        sure == {kb \in 0..(Half(c) - 1) : p[kb] > top \div 95}
        may == {kb \in 0..(Half(c) - 1) : p[kb] > top \div 106}
        lo == CHOOSE a \in sure : \A b \in sure : a <= b
        hi == CHOOSE a \in sure : \A b \in sure : a >= b
        \* k/(2 half) in twentieths; exact multiples may fall either way
        Fl(a) == {(10 * a) \div Half(c)} \cup (IF (10 * a) % Half(c) = 0 THEN {((10 * a) \div Half(c)) - 1} ELSE {})
        Ce(a) == {CeilDiv(10 * a, Half(c))} \cup (IF (10 * a) % Half(c) = 0 THEN {((10 * a) \div Half(c)) + 1} ELSE {})
    IN  IF may # sure THEN {}
        ELSE IF /\ c.haslo \/ (\E a \in Fl(lo) : Abs(c.fs[1] - Max(800, 4000 * a)) <= 1)
                /\ c.hashi \/ (\E a \in Ce(hi) : Abs(c.fs[NV(c)] - 4000 * a) <= 1)
             THEN {} ELSE {"default-band"}

\* ---- the affine Wigner distributions, from their definition ------------------------------
\* P(t, f) = f sum over u of mu(u) S(f L(-u)) conj S(f L(u)) exp(-2 i pi u f t), S the spectrum
\* cut to the band, u = j/32; the terms of u and -u are conjugate
Dil(c, j) ==
    LET a == Abs(j) + 1
    IN  CASE c.kind = "bertrand" -> (IF j >= 0 THEN BertP[a] ELSE BertN[a])
          [] c.kind = "unterberger" -> (IF j >= 0 THEN UntP[a] ELSE UntN[a])
          [] OTHER -> (IF j >= 0 THEN FlaP[a] ELSE FlaN[a])
Mu(c, j) ==  \* times 1000
    CASE c.kind = "bertrand" -> MuB[j + 1] \div 1000
      [] c.kind = "unterberger" -> (IF c.form = "A" THEN 1000 ELSE 2000000 \div ((Dil(c, j) + Dil(c, -j)) \div 1000))
      [] OTHER -> (1000 * (16384 - (j * j))) \div 16384
Ang(g, t) == (((g * t * 9) + 500) \div 1000) % 720          \* g at 80000
Cut(c, g) ==  \* times 10
    IF g * c.fq < 80000 * c.f1 - c.fq \/ g * c.fq > 80000 * c.f2 + c.fq THEN Z
    ELSE LET F(t) == LET a == Ang(g, t - c.mid) IN <<X(c, t) * C3(a), -(X(c, t) * S3(a))>>
             v == GSum(F, 0, c.N - 1)
         IN  <<Rnd(v[1], 100), Rnd(v[2], 100)>>
Term(c, r, j) ==
    LET A(q) == Cut(c, Rnd(c.fs[r] * (Dil(c, q) \div 100), 10000))
        lo == A(-j)
        w == IF lo = Z THEN Z ELSE Mul(lo, Conj(A(j)))
    IN  <<((w[1] \div 100) * Mu(c, j)) \div 1000, ((w[2] \div 100) * Mu(c, j)) \div 1000>>
Cell(c, w, r, t) ==
    LET F(j) == IF w[j] = Z THEN 0
                ELSE LET a == (((c.fs[r] * j * (t - c.mid) * 9) + 16000) \div 32000) % 720
                         v == (w[j][1] * C3(a) + w[j][2] * S3(a)) \div 100
                     IN  IF j = 0 THEN v \div 2 ELSE v
    IN  (ISum(F, 0, 128) \div 100) * (c.fs[r] \div 100)
DefinBad(c) ==
    LET V == Len(c.vs)
        n == Cols(c)
        w == TLCEval([p \in 1..V |-> TLCEval([j \in 0..128 |-> Term(c, c.vs[p], j)])])
        raw == TLCEval([p \in 1..V |-> TLCEval([t \in 1..n |-> Cell(c, w[p], c.vs[p], c.inst[t])])])
        topP == MaxOf(LAMBDA p : MaxOf(LAMBDA t : Abs(raw[p][t]), 1, n), 1, V)
        topO == MaxOf(LAMBDA p : MaxOf(LAMBDA t : Abs(c.rows[c.vs[p]][t]), 1, n), 1, V)
        P0 == TLCEval([p \in 1..V |-> TLCEval([t \in 1..n |-> raw[p][t] \div (topP \div 1000)])])
        O0 == TLCEval([p \in 1..V |-> TLCEval([t \in 1..n |-> (1000 * c.rows[c.vs[p]][t]) \div topO])])
        P(p, t) == P0[p][t]
        O(p, t) == O0[p][t]
        a == ISum(LAMBDA p : ISum(LAMBDA t : P(p, t) * P(p, t), 1, n), 1, V) \div 1000
        b == ISum(LAMBDA p : ISum(LAMBDA t : P(p, t) * O(p, t), 1, n), 1, V) \div 1000
    IN  IF topP < 10000 \/ topO < 100 THEN {"definition"}
        ELSE IF \A p \in 1..V : \A t \in 1..n : Abs((O(p, t) * a) - (P(p, t) * b)) <= c.dtol * a
        THEN {} ELSE {"definition"}

M0(c) == <<>>
MNext(c, kk, mm) == Append(mm, RowInt(c, kk))
Header(c) == IF c.shape # <<c.nv, Cols(c)>> THEN {"shape"} ELSE AxisBad(c)
Steps(c) == IF c.status = "ok" /\ Header(c) = {} THEN NV(c) ELSE 0
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF kk = 0
    THEN Header(c) \cup (IF c.real THEN {} ELSE {"reality"}) \cup (IF Scalo(c) /\ c.neg > 0 THEN {"non-negative"} ELSE {})
         \cup (IF Header(c) = {} /\ ~c.hasband THEN DefBad(c) ELSE {})
    ELSE (IF Scalo(c) THEN PropBad(c, kk) ELSE {})
         \cup (IF Scalo(c) /\ c.def THEN WtBad(c, kk) ELSE {})
         \cup (IF kk = NV(c)
               THEN (IF c.hasband /\ Regular(c) THEN EnergyBad(c, mm) ELSE {})
                    \cup (IF c.vs # <<>> THEN DefinBad(c) ELSE {})
                    \cup (IF c.marg THEN MargBad(c, mm) ELSE {})
                    \cup (IF c.ridge
                          THEN LET top == MaxOf(LAMBDA r : mm[r], 1, NV(c))
                               IN  UNION {RidgeBad(c, r, mm, top) : r \in 1..NV(c)}
                          ELSE {})
               ELSE {})
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
