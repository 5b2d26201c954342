------------------------------- MODULE TraceGab -------------------------------
(* Gabor analysis with the dual window.  The dual is observed as the integers        *)
(* c.g = 2^e gam (largest below 2^13), the coefficients of column j as                *)
(* 1000 2^e dgr; step k is column k-1, of which it checks every row against the inner  *)
(* product of the signal with the shifted, modulated dual.  The first step checks the   *)
(* dual itself: the frame operator of the synthesis window maps it back to that window. *)
EXTENDS Zak, Tables, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
NN(c) == Len(c.x)
MM(c) == Rows(NN(c), c.n, c.q)
\* closest factor pair, its first member the largest divisor not above the ceiling of the square root
Closest(v, a) == v % a = 0 /\ (a - 1) * (a - 1) < v /\ \A d \in (a + 1)..v : (d - 1) * (d - 1) < v => v % d # 0
Lattice(c) == /\ c.n \in 1..NN(c) /\ c.q \in 1..c.n /\ NN(c) % c.n = 0 /\ c.n % c.q = 0
              /\ (c.defn => Closest(NN(c), c.n)) /\ (c.defq => Closest(c.n, c.q))
Shapes(c) == /\ c.shapes = <<MM(c), c.n, MM(c), c.n>> /\ Len(c.g) = NN(c)
             /\ Len(c.obs) = c.n /\ \A j \in 1..c.n : Len(c.obs[j].d) = 2 * MM(c) /\ Len(c.obs[j].s) = MM(c) /\ Len(c.obs[j].u) = 2 * MM(c)
\* dual window
Dual(c) ==
    LET s == Start(NN(c), c.n, c.q, Len(c.w))
        G(x) == c.g[x + 1]
        U(x) == 1
        Tol(kk) == (Frame([y \in 1..Len(c.w) |-> Abs(c.w[y])], s, NN(c), c.n, c.q, U, kk) * 6) \div 10 + 2
        \* the bands depend on k modulo the hop only
        B == TLCEval([r \in 0..(Bands(NN(c), c.n, c.q) - 1), y \in 0..(Hop(NN(c), c.n) - 1) |-> Band(c.w, s, NN(c), c.n, r, MM(c), y)])
        Fk(kk) == LET f(r) == B[r, kk % Hop(NN(c), c.n)] * G((kk - (r * MM(c))) % NN(c)) IN MM(c) * ISum(f, 0, Bands(NN(c), c.n, c.q) - 1)
        T(kk) == LET f(r) == Abs(B[r, kk % Hop(NN(c), c.n)]) IN (MM(c) * ISum(f, 0, Bands(NN(c), c.n, c.q) - 1) * 6) \div 10 + 2
    IN  \A kk \in 0..(NN(c) - 1) : Abs(Fk(kk) - At(c.w, s, NN(c), kk) * c.scale) <= T(kk)
\* coefficient of row p, column j
Twid(c, p, kk) == ((p * kk) % MM(c)) * (720 \div MM(c))
Coef(c, j, p) ==
    LET g(kk) == c.g[((kk - (NN(c) \div 2) - (j * Hop(NN(c), c.n))) % NN(c)) + 1]
        C(kk) == CosAt(Twid(c, p, kk)) \div 1000
        S(kk) == -(SinAt(Twid(c, p, kk)) \div 1000)
        re(kk) == g(kk) * (c.x[kk + 1][1] * C(kk) - c.x[kk + 1][2] * S(kk))
        im(kk) == g(kk) * (c.x[kk + 1][1] * S(kk) + c.x[kk + 1][2] * C(kk))
    IN  <<ISum(re, 0, NN(c) - 1), ISum(im, 0, NN(c) - 1)>>
Amp(c) == LET f(kk) == Abs(c.x[kk + 1][1]) + Abs(c.x[kk + 1][2]) IN ISum(f, 0, NN(c) - 1)
AmpG(c, j) == LET f(kk) == (Abs(c.x[kk + 1][1]) + Abs(c.x[kk + 1][2])) * Abs(c.g[((kk - (NN(c) \div 2) - (j * Hop(NN(c), c.n))) % NN(c)) + 1]) IN ISum(f, 0, NN(c) - 1)
Coefs(c, j) ==
    LET o == c.obs[j + 1]
        tol == Amp(c) * 505 + AmpG(c, j) + 10
    IN  \A p \in 0..(MM(c) - 1) : LET v == Coef(c, j, p)
            IN  Within(v[1], o.d[2 * p + 1], tol) /\ Within(v[2], o.d[2 * p + 2], tol)
\* squared modulus, both normalised to a largest coefficient of 10^4
Squares(c, j) ==
    LET o == c.obs[j + 1]
    IN  \A p \in 1..MM(c) : Abs(o.s[p] - (o.u[2 * p - 1] * o.u[2 * p - 1] + o.u[2 * p] * o.u[2 * p])) <= Abs(o.u[2 * p - 1]) + Abs(o.u[2 * p]) + 2
M0(c) == 0
MNext(c, kk, mm) == 0
Good(c) == c.status = "ok" /\ Lattice(c) /\ Shapes(c)
Steps(c) == IF Good(c) THEN c.n ELSE 0
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF ~Lattice(c) THEN {"lattice"}
    ELSE IF ~Shapes(c) THEN {"shape"}
    ELSE IF kk = 0 THEN (IF c.gsame THEN {} ELSE {"depends-on-signal"}) \cup (IF c.w = <<>> \/ Dual(c) THEN {} ELSE {"dual"})
    ELSE (IF Coefs(c, kk - 1) THEN {} ELSE {"coefficient"}) \cup (IF Squares(c, kk - 1) THEN {} ELSE {"square"})
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
