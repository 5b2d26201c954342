------------------------------ MODULE IflDesign ------------------------------
(* plotifl as a machine: a fresh figure, the signal's panel when there is one, the   *)
(* laws' panel, the scan for the lowest defined value that settles the frequency        *)
(* axis, and the display.  Values are -1, 0, 2 and UND (undefined); TLC explores every      *)
(* pair of laws over three samples, with and without a signal, and checks that what is          *)
(* displayed is complete and inside its axis, and displayed once.  With SkipUnd = FALSE            *)
(* (undefined values take part in the scan) an undefined value hides a negative one:                  *)
(* Covered is refuted.                                                                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, NLaws, SkipUnd, Emit
UND == 9
VARIABLES laws, sig, pc, pos, low, panels, ylo, shows
vars == <<laws, sig, pc, pos, low, panels, ylo, shows>>
Vals == {-1, 0, 2, UND}
Cell(p) == laws[((p - 1) \div N) + 1][((p - 1) % N) + 1]
Init == /\ laws \in [1..NLaws -> [1..N -> Vals]] /\ sig \in BOOLEAN
        /\ laws # [a \in 1..NLaws |-> [b \in 1..N |-> UND]]
        /\ pc = "figure" /\ pos = 1 /\ low = UND /\ panels = 0 /\ ylo = 0 /\ shows = 0
        /\ Emit => PrintT(<<"SCEN", ToJson([laws |-> laws, sig |-> sig])>>)
Signal == pc = "figure" /\ sig /\ panels' = 1 /\ pc' = "laws" /\ UNCHANGED <<laws, sig, pos, low, ylo, shows>>
NoSignal == pc = "figure" /\ ~sig /\ pc' = "laws" /\ UNCHANGED <<laws, sig, pos, low, panels, ylo, shows>>
Laws == pc = "laws" /\ panels' = panels + 1 /\ pc' = "scan" /\ UNCHANGED <<laws, sig, pos, low, ylo, shows>>
Scan == /\ pc = "scan" /\ pos <= N * NLaws
        /\ low' = IF ~SkipUnd THEN (IF Cell(pos) < low \/ Cell(pos) = UND THEN Cell(pos) ELSE low)
                  ELSE IF Cell(pos) # UND /\ (low = UND \/ Cell(pos) < low) THEN Cell(pos) ELSE low
        /\ pos' = pos + 1 /\ UNCHANGED <<laws, sig, pc, panels, ylo, shows>>
Limits == /\ pc = "scan" /\ pos > N * NLaws /\ ylo' = (IF low >= 0 THEN 0 ELSE -5) /\ pc' = "show"
          /\ UNCHANGED <<laws, sig, pos, low, panels, shows>>
Show == pc = "show" /\ shows' = shows + 1 /\ pc' = "done" /\ UNCHANGED <<laws, sig, pos, low, panels, ylo>>
Next == ~Emit /\ (Signal \/ NoSignal \/ Laws \/ Scan \/ Limits \/ Show)
Spec == Init /\ [][Next]_vars
ShownOnce == shows = (IF pc = "done" THEN 1 ELSE 0)
Complete == pc = "done" => panels = (IF sig THEN 2 ELSE 1)
Defined == {laws[a][b] : a \in 1..NLaws, b \in 1..N} \ {UND}
Covered == pc = "done" => \A v \in Defined : v >= ylo
Tight == pc = "done" => (ylo < 0 <=> \E v \in Defined : v < 0)
=============================================================================
