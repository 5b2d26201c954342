----------------------------- MODULE SmoothDesign -----------------------------
(* Smoothed pseudo Wigner-Ville: the time average at each lag runs over the   *)
(* neighbours for which both samples exist.  Walks the columns and checks     *)
(* that the average is well defined, that smoothing with a one-point window   *)
(* is the pseudo Wigner-Ville distribution, that a constant signal is left    *)
(* alone wherever any neighbour exists, and Hermitian symmetry for a          *)
(* symmetric lag window.  Also enumerates configurations to replay.           *)
EXTENDS Kernels, TLC, Json
CONSTANTS MaxN, MaxF, MaxG, Vals, Emit
VARIABLES cfg, t
V3 == {<<0, 0>>, <<1, 0>>, <<1, -2>>}
V2 == {<<1, 0>>, <<1, -2>>}
V1 == {<<1, 1>>}
Win(L) == [j \in 1..L |-> <<j, (j % 3) - 1>>]
GWin(L) == [j \in 1..L |-> 1 + ((j * j) % 4)]
Cfgs == UNION {{[kind |-> "spwv", N |-> N, n |-> n, w |-> Win(2 * h + 1), g |-> GWin(2 * gg + 1), x |-> x] :
            n \in 1..MaxF, h \in 0..((MaxF + 1) \div 2), gg \in 0..MaxG, x \in [1..N -> Vals]} : N \in 1..MaxN}
Init == /\ cfg \in Cfgs /\ t = 0
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson([kind |-> "spwv", N |-> cfg.N, n |-> cfg.n, wl |-> Len(cfg.w),
                                                gl |-> Len(cfg.g)])>>) ELSE TRUE
Next == t + 1 < cfg.N /\ t' = t + 1 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<<cfg, t>>

Rows == 0..(cfg.n - 1)
OnePoint == LET c1 == [cfg EXCEPT !.g = <<2>>]
                c2 == [cfg EXCEPT !.kind = "pwv"]
            IN  \A r \in Rows : LET v == SPWVCell(c1, t, r) IN v.num = Scl(v.den, Cell(c2, t, r))
                                  \/ (v.num = Z /\ Cell(c2, t, r) = Z)
DenPos == \A r \in Rows : SPWVCell(cfg, t, r).den > 0
Bounded == \* an average of unit products is at most one
    LET c1 == [cfg EXCEPT !.x = [j \in 1..cfg.N |-> <<1, 0>>], !.w = [j \in 1..Len(cfg.w) |-> <<1, 0>>]]
    IN  \A r \in Rows : LET v == SPWVCell(c1, t, r)
                        IN  v.num[2] = 0 /\ v.num[1] \in {0, 2 * v.den, 4 * v.den}
NbrShift == \A tau \in 0..(cfg.n \div 2) : \A mm \in Nbr(cfg, t, tau) : BothIn(cfg, t - mm, tau)
SelfMember == \A tau \in 0..(cfg.n \div 2) : BothIn(cfg, t, tau) => 0 \in Nbr(cfg, t, tau)
=============================================================================
