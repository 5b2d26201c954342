------------------------------- MODULE TraceMap -------------------------------
(* Maps from matrices to marked cells.  One observation per column (angle).        *)
(*  ideal   laws lw[f][t] = p/q; column j belongs to instant ts[j]                  *)
(*  hough   integer image, angle 2 pi k / n, n a divisor of 720; cells that the      *)
(*          fixed-point tables cannot place are allowed in either place               *)
(*  fried   counts of field rows; obs are rationals over the total                    *)
(*  ridge   the set of (instant, frequency) pairs                                     *)
EXTENDS GInt, Tables, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
Range(s) == {s[j] : j \in 1..Len(s)}

\* ---- ideal representation ----------------------------------------------------
IdealRows(c, f, t) ==
    LET a == c.lw[f][t + 1] * 2 * (c.n - 1)
        r == RoundHalfEven(a, c.q)
    IN  IF 2 * (a % c.q) = c.q /\ ~c.dyadic THEN {a \div c.q, (a \div c.q) + 1} ELSE {r}
IdealBad(c, j) ==
    LET ones == {r - 1 : r \in {s \in 1..c.n : c.obs[j][s] = 1}}
        other == {s \in 1..c.n : c.obs[j][s] \notin {0, 1}}
    IN  IF Len(c.obs[j]) # c.n THEN {"rows"} ELSE
        IF /\ other = {}
           /\ \A f \in 1..Len(c.lw) : IdealRows(c, f, c.ts[j]) \cap ones # {}
           /\ ones \subseteq UNION {IdealRows(c, f, c.ts[j]) : f \in 1..Len(c.lw)}
        THEN {} ELSE {"cells"}
IdealHead(c) == (IF c.tout = c.ts /\ Len(c.obs) = Len(c.ts) THEN {} ELSE {"instants"})
                \cup (IF c.fout = [r \in 1..c.n |-> r - 1] THEN {} ELSE {"frequencies"})

\* ---- Hough transform ---------------------------------------------------------
X(c) == Len(c.a)
Y(c) == Len(c.a[1])
Xc(c) == (X(c) + 1) \div 2
Yc(c) == (Y(c) + 1) \div 2
S2(c) == X(c) * X(c) + Y(c) * Y(c)
ImMax(c) == MaxOf(LAMBDA x : MaxOf(LAMBDA y : c.a[x][y], 1, Y(c)), 1, X(c))
Bright(c) == {p \in (1..X(c)) \X (1..Y(c)) : 20 * Abs(c.a[p[1]][p[2]]) > ImMax(c)}
\* distance in thousandths of a rho cell, for angle index g = 0..n-1
Rho6(c, p, g) == (p[1] - Xc(c)) * CosAt(g * (720 \div c.n)) - (p[2] - Yc(c)) * SinAt(g * (720 \div c.n))
Cell1000(c, p, g) == LET r == Rho6(c, p, g) * (c.m - 1) IN (r * 10) \div ((SqrtT[S2(c)] * 4) \div 100)
Sure == 3   \* thousandths
Near(v, b) == Abs(v - 1000 * b) <= 500 + Sure
Definite(v, b) == Abs(v - 1000 * b) <= 500 - Sure
\* 0 no, 1 maybe, 2 certainly in cell b
Where(c, p, g, b) ==
    LET v == Cell1000(c, p, g)
        centre == p[1] = Xc(c) /\ p[2] = Yc(c)
    IN  IF ~Near(v, b) THEN 0
        ELSE IF centre THEN (IF b = 0 THEN 2 ELSE 0)
        ELSE IF v < -Sure THEN 0
        ELSE IF v <= Sure \/ v >= 1000 * (c.m - 1) - Sure THEN 1
        ELSE IF Definite(v, b) THEN 2 ELSE 1
RECURSIVE SetSum(_, _)
SetSum(c, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN c.a[p[1]][p[2]] + SetSum(c, S \ {p})
Bright2(c, s) == {p \in Bright(c) : s * c.a[p[1]][p[2]] > 0}
HoughBad(c, g) ==
    IF \A b \in 0..(c.m - 1) :
          LET sure == SetSum(c, {p \in Bright(c) : Where(c, p, g, b) = 2})
              lo == sure + SetSum(c, {p \in Bright2(c, -1) : Where(c, p, g, b) = 1})
              hi == sure + SetSum(c, {p \in Bright2(c, 1) : Where(c, p, g, b) = 1})
          IN  c.obs[g + 1][b + 1] \in lo..hi
    THEN {} ELSE {"cells"}
HoughHead(c) == (IF Len(c.obs) # c.n \/ \E g \in 1..Len(c.obs) : Len(c.obs[g]) # c.m THEN {"shape"} ELSE {})
                \cup (IF c.fout = [g \in 1..c.n |-> g - 1] THEN {} ELSE {"angles"})
                \cup (IF c.tout = [b \in 1..c.m |-> (b - 1) * (b - 1) * S2(c)] THEN {} ELSE {"distances"})

\* ---- thresholded fields --------------------------------------------------------
R(c) == Len(c.a)
C(c) == Len(c.a[1])
Total(c) == ISum(LAMBDA r : ISum(LAMBDA q : c.a[r][q], 1, C(c)), 1, R(c))
\* the model state of the thresholded kinds is <<total, number of bright cells>>
Above(c, r, j, total) == 2 * R(c) * C(c) * c.a[r][j] > total
\* field entries: row, column (both from 0), -1 for infinite
Self(c, r, j) == c.fr[r][j] = r - 1 /\ (c.oneD \/ c.fc[r][j] = j - 1)
RidgeBad(c, total) ==
    LET want == UNION {{<<j, r>> : r \in {rr \in 1..R(c) : Above(c, rr, j, total) /\ Self(c, rr, j)}} : j \in 1..C(c)}
        got == [q \in 1..Len(c.tout) |-> <<c.tout[q], c.fout[q]>>]
    IN  (IF Len(c.tout) # Len(c.fout) \/ Len(c.tout) # Cardinality(want) THEN {"count"} ELSE {})
        \cup (IF Len(c.tout) = Len(c.fout) /\ Range(got) # {<<c.ts[w[1]], w[2] - 1>> : w \in want} THEN {"points"} ELSE {})
\* number of bright cells whose field is row r, in column j
Hits(c, j, r, total) == Cardinality({rr \in 1..R(c) : Above(c, rr, j, total) /\ c.fr[rr][j] = r})
AllHits(c, total) == Cardinality({p \in (1..R(c)) \X (1..C(c)) : Above(c, p[1], p[2], total)})
FriedBad(c, j, mm) == IF \A r \in 0..(R(c) - 1) : c.obs[j][r + 1][1] * mm[2] = c.obs[j][r + 1][2] * Hits(c, j, r, mm[1])
                  THEN {} ELSE {"density"}

M0(c) == IF c.kind \in {"ridge", "fried"} THEN LET total == TLCEval(Total(c)) IN <<total, AllHits(c, total)>> ELSE <<0, 0>>
MNext(c, kk, mm) == mm
Steps(c) ==
    IF c.status # "ok" THEN 0
    ELSE CASE c.kind = "ideal" -> IF IdealHead(c) = {} THEN Len(c.ts) ELSE 0
           [] c.kind = "hough" -> IF HoughHead(c) = {} THEN c.n ELSE 0
           [] c.kind = "fried" -> IF Len(c.obs) = C(c) THEN C(c) ELSE 0
           [] OTHER -> 0
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF kk = 0
    THEN CASE c.kind = "ideal" -> IdealHead(c)
           [] c.kind = "hough" -> HoughHead(c)
           [] c.kind = "fried" -> (IF Len(c.obs) = C(c) THEN {} ELSE {"shape"})
           [] OTHER -> RidgeBad(c, mm[1])
    ELSE CASE c.kind = "ideal" -> IdealBad(c, kk)
           [] c.kind = "hough" -> HoughBad(c, kk - 1)
           [] c.kind = "fried" -> FriedBad(c, kk, mm)
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
