------------------------------ MODULE OscDesign ------------------------------
(* An oscillator advancing its phase by an arbitrary amount per sample (units of   *)
(* 1/M turn) and the two-sample discriminator that observes it.  Invariants: the   *)
(* reading is in [0, 1/2], equals the mean advance modulo one half, hence the      *)
(* frequency itself for a steady oscillator below one half, and does not see a      *)
(* constant phase offset.                                                            *)
EXTENDS GInt, TLC, Json
CONSTANTS M, MaxN, Emit
VARIABLES ph, off
vars == <<ph, off>>
Init == ph = <<0>> /\ off \in 0..(M - 1)
Step(a) == /\ Len(ph) < MaxN /\ ph' = Append(ph, ph[Len(ph)] + a) /\ UNCHANGED off
           /\ (Emit /\ Len(ph') = MaxN) => PrintT(<<"SCEN", ToJson([M |-> M, ph |-> [j \in 1..MaxN |-> (ph'[j] + off) % M]])>>)
Next == \E a \in 0..(M - 1) : Step(a)
Spec == Init /\ [][Next]_vars
Reading(t) == (((ph[t] + off) % M) - ((ph[t - 2] + off) % M)) % M        \* units of 1/(2M)
Range == \A t \in 3..Len(ph) : Reading(t) \in 0..(M - 1)
Mean == \A t \in 3..Len(ph) : ((ph[t] - ph[t - 2]) - Reading(t)) % M = 0
Steady == \A t \in 3..Len(ph) : \A a \in 0..(M \div 2) :
             (ph[t] - ph[t - 1] = a /\ ph[t - 1] - ph[t - 2] = a /\ 2 * a < M) => Reading(t) = 2 * a
=============================================================================
