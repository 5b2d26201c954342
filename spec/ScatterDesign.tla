---------------------------- MODULE ScatterDesign ----------------------------
(* The scatter loop behind the reassignment histogram and the ridge detector: the  *)
(* bright cells of a matrix are visited one at a time, in any order; each adds one *)
(* to the row its field entry names and is recorded as a ridge point when it names *)
(* itself.  TLC checks that no cell is lost or counted twice in any order, that     *)
(* the histogram's total is the number of bright cells, that ridge points are        *)
(* exactly the bright fixed points, and that a uniform matrix is all bright.          *)
EXTENDS GInt, TLC, Json
CONSTANTS R, C, A, Emit
VARIABLES a, fld, todo, hist, ridge
vars == <<a, fld, todo, hist, ridge>>
Cell == (1..R) \X (1..C)
Total(x) == LET f(r) == ISum(LAMBDA q : x[r][q], 1, C) IN ISum(f, 1, R)
Bright(x) == {p \in Cell : 2 * R * C * x[p[1]][p[2]] > Total(x)}
Init == /\ a \in [1..R -> [1..C -> A]] /\ fld \in [1..R -> [1..C -> 1..R]]
        /\ todo = Bright(a) /\ hist = [c \in 1..C |-> [r \in 1..R |-> 0]] /\ ridge = {}
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson([a |-> a, fr |-> fld])>>) ELSE TRUE
Visit == /\ ~Emit
         /\ \E p \in todo :
              /\ todo' = todo \ {p}
              /\ hist' = [hist EXCEPT ![p[2]][fld[p[1]][p[2]]] = @ + 1]
              /\ ridge' = IF fld[p[1]][p[2]] = p[1] THEN ridge \cup {p} ELSE ridge
         /\ UNCHANGED <<a, fld>>
Spec == Init /\ [][Visit]_vars /\ WF_vars(Visit)
Sum == ISum(LAMBDA c : ISum(LAMBDA r : hist[c][r], 1, R), 1, C)
Conserved == Sum + Cardinality(todo) = Cardinality(Bright(a))
FixedPoints == todo = {} => ridge = (IF Emit THEN ridge ELSE {p \in Bright(a) : fld[p[1]][p[2]] = p[1]})
Uniform == (\A p, q \in Cell : a[p[1]][p[2]] = a[q[1]][q[2]]) /\ a[1][1] > 0 => Bright(a) = Cell
Finishes == <>(Emit \/ todo = {})
=============================================================================
