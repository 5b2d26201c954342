------------------------------ MODULE SynDesign ------------------------------
(* The mixer behind atoms(): rows are taken one at a time, in any order, their    *)
(* centre clipped into the signal and rounded, and added to the output.  TLC       *)
(* checks that the order never matters, that each row is used once, and that       *)
(* every atom's peak lies inside the signal.  In Emit mode it enumerates single    *)
(* atoms: every half-integer centre in and around the signal, every quarter        *)
(* frequency in and around the band.                                               *)
EXTENDS GInt, TLC, Json
CONSTANTS MaxN, NRows, Emit
VARIABLES n, rows, left, out, first
vars == <<n, rows, left, out, first>>
T0(p, nn) == RoundHalfEven(Max(2, Min(p, 2 * nn)), 2)
\* a toy envelope: linear decay
Env(p, k, nn) == Max(0, 8 - Abs(k - T0(p, nn)))
Row == {[p |-> p, A |-> A] : p \in {-1, 1, 3, 4, 5, 7, 9}, A \in {-1, 2}}
Init == /\ n \in 1..MaxN
        /\ left = 1..NRows /\ out = [k \in 1..n |-> 0] /\ first = <<>>
        /\ IF Emit
           THEN /\ rows \in {[j \in 1..NRows |-> [p |-> p, A |-> f]] : p \in (-2)..(2 * MaxN + 3), f \in (-1)..3}
                /\ PrintT(<<"SCEN", ToJson([n |-> n, p |-> rows[1].p, a |-> rows[1].A])>>)
           ELSE rows \in [1..NRows -> Row]
AddRow == /\ ~Emit
       /\ \E j \in left : /\ left' = left \ {j}
                          /\ out' = [k \in 1..n |-> out[k] + rows[j].A * Env(rows[j].p, k, n)]
                          /\ first' = Append(first, j)
       /\ UNCHANGED <<n, rows>>
Spec == Init /\ [][AddRow]_vars /\ WF_vars(AddRow)
Total(k) == LET f(j) == rows[j].A * Env(rows[j].p, k, n) IN ISum(f, 1, NRows)
OrderFree == (left = {} /\ ~Emit) => \A k \in 1..n : out[k] = Total(k)
UsedOnce == Len(first) + Cardinality(left) = NRows
PeakInside == \A j \in 1..NRows : T0(rows[j].p, n) \in 1..n
Finishes == <>(Emit \/ left = {})
=============================================================================
