------------------------------ MODULE IntDesign ------------------------------
(* The row sweep behind the two-dimensional integral: strips between consecutive   *)
(* rows are added one at a time.  Invariants, over every small matrix and every     *)
(* irregular row axis: the sweep equals the weighted double sum; a constant matrix  *)
(* integrates to area times constant; an affine one to its mean value times area.   *)
EXTENDS GInt, TLC, Json
CONSTANTS R, C, A, Emit
VARIABLES a, y, r, acc
vars == <<a, y, r, acc>>
Ys == {s \in [1..R -> 0..(R + 1)] : \A j \in 1..(R - 1) : s[j] < s[j + 1]}
Init == /\ a \in [1..R -> [1..C -> A]] /\ y \in Ys /\ r = 1 /\ acc = 0
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson([a |-> a, y |-> y])>>) ELSE TRUE
Inner(row) == LET f(j) == row[j] * (IF j = 1 \/ j = C THEN 1 ELSE 2) IN ISum(f, 1, C)
Sweep == ~Emit /\ r < R /\ r' = r + 1 /\ acc' = acc + (Inner(a[r]) + Inner(a[r + 1])) * (y[r + 1] - y[r]) /\ UNCHANGED <<a, y>>
Spec == Init /\ [][Sweep]_vars /\ WF_vars(Sweep)
Wy(j) == (IF j > 1 THEN y[j] - y[j - 1] ELSE 0) + (IF j < R THEN y[j + 1] - y[j] ELSE 0)
DoubleSum == LET f(j) == Wy(j) * Inner(a[j]) IN ISum(f, 1, R)
Area4 == 4 * (C - 1) * (y[R] - y[1])
SumsUp == r = R => acc = DoubleSum
Constant == (r = R /\ \E v \in A : \A j \in 1..R : \A q \in 1..C : a[j][q] = v) => acc = a[1][1] * Area4
Affine == (r = R /\ \A j \in 1..R : \A q \in 1..C : a[j][q] = a[1][1] + (q - 1) * (a[1][2] - a[1][1]))
             => 2 * acc = (a[1][1] + a[1][C]) * Area4
Finishes == <>(Emit \/ r = R)
=============================================================================
