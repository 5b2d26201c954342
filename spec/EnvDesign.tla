------------------------------ MODULE EnvDesign ------------------------------
(* Envelopes as a walk along the sample grid.  Checks, for every small         *)
(* configuration: the distance recorded by the walk is symmetric about the     *)
(* centre, the rectangle is an interval around the centre contained in the     *)
(* triangle's support, and the rational enclosure of pi used by TraceAM never   *)
(* leaves a sample undecided for spreads in the model.                          *)
EXTENDS GInt, TLC, Json
CONSTANTS MaxN, Emit
VARIABLES c, k, hist
vars == <<c, k, hist>>
Shapes == {"gauss", "bilat", "unilat", "rect", "triang"}
Spreads == {1, 4, 10, 49}
Init == /\ c \in {[shape |-> s, n |-> n, deft0 |-> d, p |-> p, defT |-> e, T2 |-> t] :
                     s \in (IF Emit THEN Shapes ELSE {"rect"}), n \in 1..MaxN, d \in {TRUE, FALSE},
                     p \in (IF Emit THEN {-1, 0, 3, 6} ELSE -2..(2 * MaxN)), e \in {TRUE, FALSE}, t \in Spreads}
        /\ (Emit => (c.deft0 => c.p = 0) /\ (c.defT => c.T2 = 1))
        /\ k = 0 /\ hist = <<>>
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson(c)>>) ELSE TRUE
P == IF c.deft0 THEN 2 * RoundHalfEven(c.n, 2) ELSE c.p
T2 == IF c.defT THEN 4 * c.n ELSE c.T2
Next == /\ ~Emit /\ k < c.n /\ k' = k + 1 /\ hist' = Append(hist, Abs(2 * k - P)) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
In(d, a) == 4 * d * d * 355 <= a * T2 * 4 * 113
Out(d, a) == 4 * d * d * 333 > a * T2 * 4 * 106
Decided == \A j \in 1..k : \A a \in {3, 10} : In(hist[j], a) # Out(hist[j], a)
Interval == \A x, y, z \in 1..k : (x < y /\ y < z /\ In(hist[x], 3) /\ In(hist[z], 3)) => In(hist[y], 3)
Nested == \A j \in 1..k : In(hist[j], 3) => In(hist[j], 10)
Centre == k = c.n /\ 0 <= P /\ P <= 2 * (c.n - 1) /\ P % 2 = 0 => \E j \in 1..k : hist[j] = 0
Mirror == \A a, b \in 1..k : (a - 1) * 2 + (b - 1) * 2 = 2 * P => hist[a] = hist[b]
=============================================================================
