---------------------------- MODULE ReassignDesign ----------------------------
(* The reassignment loop as a machine.  A matrix of plain values (signed tokens), a *)
(* threshold and an arbitrary displacement per cell are chosen; the cells are        *)
(* visited in any order, each value above the threshold in modulus is added to the   *)
(* cell its displacement leads to (rows wrap around, columns are clipped to the      *)
(* matrix), every other one stays.  TLC checks that at every moment, and for every    *)
(* order, what has been placed plus what is left equals the plain total, that the      *)
(* destination is always inside the matrix, that cells with no displacement leave the  *)
(* matrix as it was, and that the outcome does not depend on the order.                 *)
EXTENDS GInt, TLC, Json
CONSTANTS R, C, A, Thr, Dr, Dc, XLen, XA, Emit
VARIABLES a, dr, dc, todo, out, x
vars == <<a, dr, dc, todo, out, x>>
Cell == (0..(R - 1)) \X (0..(C - 1))
Clip(j) == Max(0, Min(C - 1, j))
Dest(p) == IF Abs(a[p]) > Thr THEN <<(p[1] - dr[p]) % R, Clip(p[2] + dc[p])>> ELSE p
Init ==
    IF Emit
    THEN /\ a = 0 /\ dr = 0 /\ dc = 0 /\ todo = {} /\ out = 0
         /\ x \in UNION {[1..l -> {v - 2 : v \in XA}] : l \in 4..XLen}
         /\ x[1] # 0 \/ x[2] # 0
         /\ PrintT(<<"SCEN", ToJson([x |-> x])>>)
    ELSE /\ a \in [Cell -> {v - 2 : v \in A}] /\ dr \in [Cell -> {v - 4 : v \in Dr}] /\ dc \in [Cell -> {v - 4 : v \in Dc}] /\ x = 0
         /\ todo = Cell /\ out = [p \in Cell |-> 0]
Visit == /\ ~Emit
         /\ \E p \in todo : todo' = todo \ {p} /\ out' = [out EXCEPT ![Dest(p)] = @ + a[p]]
         /\ UNCHANGED <<a, dr, dc, x>>
Spec == Init /\ [][Visit]_vars /\ WF_vars(Visit)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN f[p] + Sum(f, S \ {p})
Inside == Emit \/ \A p \in Cell : Dest(p) \in Cell
Conserved == Emit \/ Sum(out, Cell) + Sum(a, todo) = Sum(a, Cell)
Expected == [q \in Cell |-> Sum(a, {p \in Cell : Dest(p) = q})]
OrderFree == Emit \/ (todo = {} => out = Expected)
Still == Emit \/ ((todo = {} /\ \A p \in Cell : dr[p] % R = 0 /\ dc[p] = 0) => out = a)
Finishes == <>(Emit \/ todo = {})
=============================================================================
