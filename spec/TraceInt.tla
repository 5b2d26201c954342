------------------------------- MODULE TraceInt -------------------------------
(* Two-dimensional integration and Renyi information.  The matrix a has integer   *)
(* entries, the axes integer positions.  The model state m walks the rows and      *)
(* accumulates four times the trapezoid integral of the entries raised to alpha    *)
(* (of t log2 t for the entropy): m = <<integral of a, integral of the power>>.    *)
(* Observed: int4 = 4 integral;  pw = 2^((1-alpha)R) int4^alpha / 4^(alpha-1)       *)
(* (alpha = 2, 3, 4; ten thousand times that for alpha = (al2 - 20)/100), 4 V^2 int4 (alpha = 1/2), or 10^5 R (alpha = 1).               *)
EXTENDS GInt, Tables, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
Rows(c) == Len(c.a)
Cols(c) == Len(c.a[1])
Dx(c) == c.x[2] - c.x[1]
\* 10^4 v^(a/100) for v = 0, 1, 2, 4, 8
PowerOf(v, a) == IF v = 0 THEN 0 ELSE LET e == a * (CASE v = 1 -> 0 [] v = 2 -> 1 [] v = 4 -> 2 [] v = 8 -> 3)
                                      IN  Exp2T[(e % 100) + 1] * (2 ^ (e \div 100))
Isqrt(v) == CHOOSE r \in 0..40 : r * r = v
P(c, v) == CASE c.al2 = 4 -> v * v [] c.al2 = 6 -> v * v * v [] c.al2 = 8 -> v * v * v * v
             [] c.al2 > 20 -> PowerOf(v, c.al2 - 20)
             [] c.al2 = 1 -> Isqrt(v) [] c.al2 = 2 -> (IF v = 0 THEN 0 ELSE v * Log2T[v]) [] OTHER -> 0
\* twice the inner trapezoid of row r
Inner(c, r, F(_)) == LET f(j) == F(c.a[r][j]) * (IF j = 1 \/ j = Cols(c) THEN 1 ELSE 2)
                     IN  ISum(f, 1, Cols(c)) * Dx(c)
Dy(c, r) == c.y[r] - c.y[r - 1]
Strip(c, r, F(_)) == (Inner(c, r - 1, F) + Inner(c, r, F)) * Dy(c, r)
M0(c) == <<0, 0>>
MNext(c, r, mm) == IF r = 1 THEN mm
                   ELSE LET id(v) == v pw(v) == P(c, v)
                        IN  <<mm[1] + Strip(c, r, id), mm[2] + Strip(c, r, pw)>>
Steps(c) == IF c.status = "ok" THEN Rows(c) ELSE 0
EntropyOk(c, mm) == LET want == Log2T[mm[1]] - 200000 - (mm[2] \div mm[1])
                    IN  Abs(c.pw - want) <= 8
Judge(c, r, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF r < Rows(c) THEN {}
    ELSE (IF c.int4 = mm[1] THEN {} ELSE {"integral"})
         \cup (IF c.al2 = 0 THEN {}
               ELSE IF c.al2 = 2 THEN (IF EntropyOk(c, mm) THEN {} ELSE {"entropy"})
               ELSE IF c.al2 > 20 THEN (IF Abs(c.pw - mm[2]) <= (mm[2] \div 15000) + 10 THEN {} ELSE {"renyi"})
               ELSE IF c.al2 = 1 THEN (IF c.pw = mm[2] * mm[2] THEN {} ELSE {"renyi"})
               ELSE (IF c.pw = mm[2] THEN {} ELSE {"renyi"}))
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
