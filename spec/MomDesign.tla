------------------------------ MODULE MomDesign ------------------------------
(* The accumulator behind the localisation functions, run over every density of   *)
(* up to MaxN cells with weights in A.  Invariants: the spread is never negative   *)
(* (and zero exactly for one occupied cell), the mean lies in the occupied range,  *)
(* and neither depends on where the origin is put.                                  *)
EXTENDS GInt, TLC, Json
CONSTANTS MaxN, A, Emit
Alphabet == {<<0, 0>>, <<1, 0>>, <<0, -1>>, <<2, 1>>, <<-3, 0>>}
VARIABLES w, E, S1, S2
vars == <<w, E, S1, S2>>
Init == w = <<>> /\ E = 0 /\ S1 = 0 /\ S2 = 0
Push(a) == /\ Len(w) < MaxN /\ w' = Append(w, a)
           /\ LET x == Len(w) d == Sq(a) IN E' = E + d /\ S1' = S1 + d * x /\ S2' = S2 + d * x * x
           /\ (Emit /\ E' > 0 /\ Len(w') \in {1, 2, 4}) => PrintT(<<"SCEN", ToJson([v |-> w'])>>)
Next == \E a \in A : Push(a)
Spec == Init /\ [][Next]_vars
Occ == {x \in 0..(Len(w) - 1) : w[x + 1] # Z}
Var == E * S2 - S1 * S1
NonNegative == Var >= 0 /\ ((Var = 0) <=> Cardinality(Occ) <= 1)
InRange == E > 0 => \E a, b \in Occ : E * a <= S1 /\ S1 <= E * b
OriginFree == \A s \in {1, 5} :
    LET f(x) == Sq(w[x + 1]) * (x + s)
        g(x) == Sq(w[x + 1]) * (x + s) * (x + s)
        T1 == ISum(f, 0, Len(w) - 1) T2 == ISum(g, 0, Len(w) - 1)
    IN  T1 = S1 + s * E /\ E * T2 - T1 * T1 = Var
=============================================================================
