------------------------------- MODULE AffDesign -------------------------------
(* An exact wavelet transform: voice v convolves the signal, sample by sample,     *)
(* with a symmetric envelope of half width v times the powers of i (a tone at a     *)
(* quarter of the band).  TLC runs the sliding computation over every signal with    *)
(* values in A and checks that the transform is linear and moves with the signal,    *)
(* that its squared modulus does not see the sign, that an impulse is answered by     *)
(* a pattern symmetric about its own instant and brightest there, and that the         *)
(* normalised matrix integrates to what is asked for whatever the signal's scale.      *)
EXTENDS GInt, TLC, Json
CONSTANTS N, V, A, GenLen, Emit
VARIABLES x, v, t, wt
vars == <<x, v, t, wt>>
Pow(j) == CASE j % 4 = 0 -> <<1, 0>> [] j % 4 = 1 -> <<0, 1>> [] j % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Env(u, tau) == u + 1 - Abs(tau)
At(s, u, p) == GSum(LAMBDA tau : IF p - tau \in 1..N THEN Scl(s[p - tau] * Env(u, tau), Pow(tau)) ELSE Z, -u, u)
Init == IF Emit
        THEN /\ x \in [1..GenLen -> {a - 1 : a \in A}] /\ v = 0 /\ t = 0 /\ wt = 0
             /\ \E p, q \in 1..GenLen : x[p] # x[q]
             /\ PrintT(<<"SCEN", ToJson([x |-> x])>>)
        ELSE x \in [1..N -> {a - 1 : a \in A}] /\ v = 1 /\ t = 1 /\ wt = [u \in 1..V |-> <<>>]
Next == /\ ~Emit /\ v <= V
        /\ wt' = [wt EXCEPT ![v] = Append(@, At(x, v, t))]
        /\ IF t = N THEN v' = v + 1 /\ t' = 1 ELSE t' = t + 1 /\ v' = v
        /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
Done == ~Emit /\ v = V + 1
Neg == [p \in 1..N |-> -x[p]]
Later == [p \in 1..N |-> IF p = 1 THEN 0 ELSE x[p - 1]]
Square(u, p) == Sq(wt[u][p])
Sign == Done => \A u \in 1..V : \A p \in 1..N : Sq(At(Neg, u, p)) = Square(u, p)
Moves == (Done /\ x[N] = 0) => \A u \in 1..V : \A p \in 1..(N - 1) : At(Later, u, p + 1) = wt[u][p]
Lone == Cardinality({p \in 1..N : x[p] # 0}) = 1
Where == CHOOSE p \in 1..N : x[p] # 0
Impulse == (Done /\ Lone) => \A u \in 1..V : \A d \in 0..(N - 1) :
              /\ Where + d <= N => Square(u, Where + d) <= Square(u, Where)
              /\ (Where + d <= N /\ Where - d >= 1) => Square(u, Where + d) = Square(u, Where - d)
Total(f(_, _)) == ISum(LAMBDA u : ISum(LAMBDA p : f(u, p), 1, N), 1, V)
Doubled(u, p) == Sq(Add(wt[u][p], wt[u][p]))
Scale == Done => Total(Doubled) = 4 * Total(Square)
=============================================================================
