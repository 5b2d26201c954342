------------------------------ MODULE WideDesign ------------------------------
(* The wide-band correlator over V voices one octave apart: row k adds, voice by    *)
(* voice, the products of the spectrum at voice p and, conjugated, at voice p + 2k,  *)
(* weighted by the frequency half-way (on the geometric scale).  TLC runs it over     *)
(* every spectrum with parts in A and checks that the rows are bounded by the origin   *)
(* (Cauchy-Schwarz), that the origin is the weighted energy, that opposite scales are   *)
(* conjugate, and that a phase common to all voices, or a delay (one quarter turn at     *)
(* the lowest voice), moves nothing but the delay axis.                                   *)
EXTENDS GInt, TLC, Json
CONSTANTS V, A, GenLen, Emit
VARIABLES s, kk, p, acc, out
vars == <<s, kk, p, acc, out>>
Vals == {<<a - 1, b - 1>> : a \in A, b \in A}
F(v) == 2 ^ (v - 1)
K0 == V \div 2
Rows == (-((V - 1) \div 2))..((V - 1) \div 2)
Lo(r) == Max(1, 1 - 2 * r)
Hi(r) == Min(V, V - 2 * r)
Term(u, r, v) == Scl(F(v + r), Mul(u[v], Conj(u[v + 2 * r])))
Whole(u, r) == GSum(LAMBDA v : Term(u, r, v), Lo(r), Hi(r))
First == -((V - 1) \div 2)
Init == IF Emit
        THEN /\ s \in [1..GenLen -> {a - 1 : a \in A}] /\ kk = 0 /\ p = 0 /\ acc = Z /\ out = 0
             /\ \E v \in 1..GenLen : s[v] # 0
             /\ PrintT(<<"SCEN", ToJson([x |-> s])>>)
        ELSE s \in [1..V -> Vals] /\ kk = First /\ p = Lo(First) /\ acc = Z /\ out = [r \in Rows |-> Z]
Next == /\ ~Emit /\ kk \in Rows
        /\ IF p > Hi(kk)
           THEN out' = [out EXCEPT ![kk] = acc] /\ kk' = kk + 1 /\ p' = Lo(kk + 1) /\ acc' = Z
           ELSE acc' = Add(acc, Term(s, kk, p)) /\ p' = p + 1 /\ UNCHANGED <<kk, out>>
        /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
Done == ~Emit /\ kk \notin Rows
Origin == Done => out[0] = <<ISum(LAMBDA v : F(v) * Sq(s[v]), 1, V), 0>>
Peak == Done => \A r \in Rows : Sq(out[r]) <= out[0][1] * out[0][1]
Symmetric == Done => \A r \in Rows : out[-r] = Conj(out[r])
Turned == [v \in 1..V |-> Mul(<<0, 1>>, s[v])]
PhaseFree == Done => \A r \in Rows : Whole(Turned, r) = out[r]
=============================================================================
