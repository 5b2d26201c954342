----------------------------- MODULE GaborDesign -----------------------------
(* Analysis and synthesis on a time-frequency lattice, one coefficient at a time.   *)
(* Over every lattice of N samples whose twiddles are Gaussian units, every window     *)
(* and every probing impulse, TLC checks that adding up <g, h_jp> h_jp over the         *)
(* lattice gives the band form of the frame operator used to validate the               *)
(* implementation; that it is Hermitian; that it commutes with the lattice's shifts     *)
(* (so that the dual of every atom is the shifted dual, and one dual window serves      *)
(* all); and that the process terminates.  Emits the lattices as scenarios.             *)
EXTENDS Zak, TLC, Json
CONSTANTS Ns, A, Supp, Emit
VARIABLES N, n, q, h, b, j, p, acc
vars == <<N, n, q, h, b, j, p, acc>>
M == Rows(N, n, q)
Div(a) == {d \in 1..a : a % d = 0}
Unit(e) == CASE e % 4 = 0 -> <<1, 0>> [] e % 4 = 1 -> <<0, 1>> [] e % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Exact(NN, nn, qq) == Emit \/ Rows(NN, nn, qq) \in {1, 2, 4}
Lattices == UNION {UNION {{<<NN, nn, qq>> : qq \in {d \in Div(nn) : Exact(NN, nn, d)}} : nn \in Div(NN)} : NN \in Ns}
Init == \E l \in Lattices :
    /\ N = l[1] /\ n = l[2] /\ q = l[3] /\ j = 0 /\ p = 0
    /\ IF Emit THEN h = <<1>> /\ b = 0 /\ PrintT(<<"SCEN", ToJson([N |-> N, n |-> n, q |-> q])>>)
       ELSE h \in [1..Min(Supp, N) -> A] /\ b \in 0..(N - 1)
    /\ acc = [k \in 0..(N - 1) |-> Z]
Atom(s, jj, pp, k) == Scl(At(h, s, N, k - (jj * Hop(N, n))), Unit(pp * k * (4 \div M)))
Coef(jj, pp) == Conj(Atom(0, jj, pp, b))       \* the impulse at b
Take == /\ ~Emit /\ j < n
        /\ acc' = [k \in 0..(N - 1) |-> Add(acc[k], Mul(Coef(j, p), Atom(0, j, p, k)))]
        /\ IF p + 1 < M THEN p' = p + 1 /\ UNCHANGED j ELSE p' = 0 /\ j' = j + 1
        /\ UNCHANGED <<N, n, q, h, b>>
Spec == Init /\ [][Take]_vars /\ WF_vars(Take)
Delta(bb) == [k \in 0..(N - 1) |-> IF k = bb % N THEN 1 ELSE 0]
Fr(bb, k) == LET d == Delta(bb) g(x) == d[x] IN Frame(h, 0, N, n, q, g, k % N)
Done == j = n
Walnut == (Done /\ ~Emit) => \A k \in 0..(N - 1) : acc[k] = <<Fr(b, k), 0>>
Hermitian == Done => \A k \in 0..(N - 1) : Fr(b, k) = Fr(k, b)
Commutes == Done => \A k \in 0..(N - 1) : Fr(b + Hop(N, n), k + Hop(N, n)) = Fr(b, k)
Diagonal == Done => \A k \in 0..(N - 1) : ((k - b) % M # 0) => Fr(b, k) = 0
Finishes == <>(Emit \/ Done)
=============================================================================
