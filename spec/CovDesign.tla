------------------------------ MODULE CovDesign ------------------------------
(* Why the covariance relations hold: they are properties of the kernels.      *)
(* A behaviour transforms a signal sample by sample (multiply by a, or by the  *)
(* powers of i, which is a modulation by a quarter of the band) and, when the   *)
(* whole signal is transformed, the kernel columns of Kernels must be related   *)
(* as the covariance law says.  n is a multiple of 4 so that the modulation is  *)
(* exact in Gaussian integers.                                                  *)
EXTENDS Kernels, TLC, Json
CONSTANTS MaxN, Fs, Vals, As, Emit
V == {<<0, 1>>, <<2, -1>>}
A == {<<-1, 0>>, <<1, 2>>}
OpSet == {"scale", "shift", "sum", "para", "same", "delay"}
KindSet == {"stft", "astft", "spec", "wv", "pwv", "spwv", "mh", "pmh", "page", "ppage", "amb",
            "rspec", "rpwv", "rspwv", "rpmh", "rppage"}
VARIABLES cfg, y, op, par, p
vars == <<cfg, y, op, par, p>>

Win(L) == [j \in 1..L |-> <<j, (j % 3) - 1>>]
WinOf(kd, n) == IF kd \in {"wv", "mh"} THEN Win(1) ELSE Win(n - 1)
ModelKinds == {"stft", "wv", "pwv", "pmh", "ppage", "mh"}
Cfgs == UNION {{[kind |-> kd, N |-> N, n |-> n, w |-> WinOf(kd, n), x |-> x] :
           kd \in ModelKinds, n \in Fs, x \in [1..N -> Vals]} : N \in 1..MaxN}
Pow(j) == CASE j % 4 = 0 -> <<1, 0>> [] j % 4 = 1 -> <<0, 1>> [] j % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>

InitModel == /\ cfg \in Cfgs /\ op \in {"scale", "shift"} /\ par \in As
             /\ (op = "shift" => par = <<-1, 0>>)
             /\ y = <<>> /\ p = 0
InitGen == /\ cfg \in {[kind |-> kd, N |-> N, n |-> n] : kd \in KindSet, N \in {6, 9}, n \in {8, 9, 12}}
           /\ op \in OpSet /\ par = <<1, 0>> /\ y = <<>> /\ p = 0
           /\ PrintT(<<"SCEN", ToJson([kind |-> cfg.kind, op |-> op, N |-> cfg.N, n |-> cfg.n])>>)
Init == IF Emit THEN InitGen ELSE InitModel

Next == /\ ~Emit /\ p < cfg.N
        /\ y' = Append(y, Mul(IF op = "scale" THEN par ELSE Pow(p), cfg.x[p + 1]))
        /\ p' = p + 1 /\ UNCHANGED <<cfg, op, par>>
Spec == Init /\ [][Next]_vars

Done == ~Emit /\ p = cfg.N
Out == [cfg EXCEPT !.x = y]
RowsBy == IF cfg.kind \in {"wv", "pwv"} THEN 2 * (cfg.n \div 4) ELSE cfg.n \div 4
\* the DFT turns a shift by s rows into a factor i^(4 s r / n) on kernel entry r
Covariant ==
    Done => \A t \in 0..(cfg.N - 1) : \A r \in 0..(cfg.n - 1) :
      LET a == Row(cfg, t, r)
          b == Row(Out, t, r)
      IN  IF op = "scale"
          THEN b = (IF cfg.kind = "stft" THEN Mul(par, a) ELSE Scl(Sq(par), a))
          ELSE IF cfg.kind = "stft" THEN b = Mul(Pow(t + r), a)
          ELSE b = Mul(Pow((4 * RowsBy * r) \div cfg.n), a)
=============================================================================
