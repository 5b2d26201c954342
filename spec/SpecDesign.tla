------------------------------ MODULE SpecDesign ------------------------------
(* Design check of the spectrogram definition: the column the analyser slides *)
(* over is non-negative definite, unaffected by window scaling, and its total *)
(* is the windowed energy; enumerates the configurations to replay.           *)
EXTENDS Kernels, TLC, Json
CONSTANTS MaxN, MaxF, Vals, Emit
VARIABLES cfg, t
V2 == {<<1, 0>>, <<1, -2>>}
V3 == {<<0, 0>>, <<1, 0>>, <<1, -2>>}
V1 == {<<1, 1>>}
Win(L) == [j \in 1..L |-> <<j, (j % 3) - 1>>]
Cfgs == UNION {{[kind |-> "spec", N |-> N, n |-> n, w |-> Win(wl), x |-> x] :
            n \in 2..MaxF, wl \in 1..(MaxF - 1), x \in [1..N -> Vals]} : N \in 1..MaxN}
Init == /\ cfg \in {c \in Cfgs : 2 * Half(c) < c.n - 1} /\ t = 0
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson([N |-> cfg.N, n |-> cfg.n, wl |-> Len(cfg.w)])>>) ELSE TRUE
Next == t + 1 < cfg.N /\ t' = t + 1 /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<<cfg, t>>

Energy == LET F(tau) == IF InSig(cfg, t + tau) THEN Sq(STFTLag(cfg, t, tau)) ELSE 0
          IN  ISum(F, -Half(cfg), Half(cfg))
DenPositive == SpecDen(cfg, t) > 0
TotalIsEnergy == SpecNum(cfg, t, 0) = <<Energy, 0>>
HermitianCol == \A r \in 0..(cfg.n - 1) : SpecNum(cfg, t, (cfg.n - r) % cfg.n) = Conj(SpecNum(cfg, t, r))
CauchySchwarz == \A r \in 0..(cfg.n - 1) : Sq(SpecNum(cfg, t, r)) <= Energy * Energy
WindowScale == LET c2 == [cfg EXCEPT !.w = [j \in 1..Len(cfg.w) |-> Mul(<<1, 2>>, cfg.w[j])]]
               IN  /\ SpecDen(c2, t) = 5 * SpecDen(cfg, t)
                   /\ \A r \in 0..(cfg.n - 1) : SpecNum(c2, t, r) = Scl(5, SpecNum(cfg, t, r))
=============================================================================
