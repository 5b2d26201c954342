------------------------------ MODULE GuardDesign ------------------------------
(* A call as a machine: it walks its guards in order, refuses at the first violated   *)
(* one, else computes.  Invariants: nothing is computed from inadmissible parameters,    *)
(* nothing admissible is refused, and every call ends.  With Shadow = TRUE a guard that    *)
(* passes by its special case (a column law) skips the following ones, as fmodany did        *)
(* before the repair; NeverUnchecked refutes it.                                              *)
EXTENDS Guards, TLC, Json
CONSTANTS Shadow, Emit
VARIABLES f, p, pc, j
vars == <<f, p, pc, j>>
Init == /\ f \in Functions /\ p \in Dom(f) /\ pc = "guard" /\ j = 1
        /\ Emit => PrintT(<<"SCEN", ToJson([f |-> f, p |-> p])>>)
N == Len(Guard(f, p))
Check == /\ ~Emit /\ pc = "guard" /\ j <= N
         /\ IF ~Guard(f, p)[j] THEN pc' = "refused" /\ UNCHANGED j
            ELSE pc' = "guard" /\ j' = (IF Shadow /\ f = "fmodany" /\ j = 1 /\ p[2] = 1 THEN 3 ELSE j + 1)
         /\ UNCHANGED <<f, p>>
Compute == ~Emit /\ pc = "guard" /\ j > N /\ pc' = "computed" /\ UNCHANGED <<f, p, j>>
Next == Check \/ Compute
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NeverUnchecked == pc = "computed" => Verdict(f, p) # "refuse"
NeverOverRefused == pc = "refused" => Verdict(f, p) = "refuse"
Ends == <>(Emit \/ pc \in {"refused", "computed"})
\* every function has both refused and accepted parameters in its domain
Both == \A g \in Functions : {Verdict(g, q) : q \in Dom(g)} \cap {"refuse", "accept"} = {"refuse", "accept"}
ASSUME Both
=============================================================================
