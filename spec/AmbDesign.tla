------------------------------ MODULE AmbDesign ------------------------------
(* The ambiguity function as a sweep over samples for each lag; TLC checks that *)
(* the sweep stays in range, that the zero lag column sums to the energy, that  *)
(* opposite lags hold conjugate products, and the Doppler axis geometry.        *)
EXTENDS Kernels, TLC, Json
CONSTANTS MaxN, Vals, Emit
V == {<<1, 1>>, <<0, -2>>}
VARIABLES c, lag, t, col
vars == <<c, lag, t, col>>
Cfgs == UNION {{[N |-> N, n |-> n, x |-> x] : n \in N..(N + 2), x \in [1..N -> Vals]} : N \in 1..MaxN}
First(l) == Abs(l)
Last(d, l) == d.N - 1 - Abs(l)
Init == /\ c \in (IF Emit THEN {d \in Cfgs : \A j \in 1..d.N : d.x[j] = <<1, 1>>} ELSE Cfgs)
        /\ lag \in (IF Emit THEN (-c.N - 1)..(c.N + 1) \cup {99} ELSE -c.N..c.N)
        /\ t = First(lag) /\ col = [s \in 0..(c.n - 1) |-> Z]
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson([N |-> c.N, n |-> c.n, lag |-> lag])>>) ELSE TRUE
Next == /\ ~Emit /\ t <= Last(c, lag)
        /\ col' = [col EXCEPT ![t] = Mul(X(c, t + lag), Conj(X(c, t - lag)))]
        /\ t' = t + 1 /\ UNCHANGED <<c, lag>>
Spec == Init /\ [][Next]_vars
Done == ~Emit /\ t > Last(c, lag)
InRange == t <= Last(c, lag) => InSig(c, t + lag) /\ InSig(c, t - lag)
Refines == Done => \A s \in 0..(c.n - 1) : col[s] = AmbCell(c, lag, s)
Energy == LET F(s) == Sq(X(c, s)) G2(s) == AmbCell(c, 0, s)
          IN  GSum(G2, 0, c.n - 1) = <<ISum(F, 0, c.N - 1), 0>>
Conjugate == \A s \in 0..(c.n - 1) : AmbCell(c, -lag, s) = Conj(AmbCell(c, lag, s))
=============================================================================
