------------------------------ MODULE KeyDesign ------------------------------
(* The transmitter behind the keying generators: draws a symbol, holds it for L *)
(* samples, stops after n samples.  TLC checks that runs are exactly L long      *)
(* except the last one, that ceil(n/L) symbols are drawn, none unused, and that  *)
(* exactly n samples leave.                                                       *)
EXTENDS GInt, TLC, Json
CONSTANTS MaxN, A, Emit
VARIABLES kind, n, L, sym, left, out, drawn
vars == <<kind, n, L, sym, left, out, drawn>>
Init == /\ kind \in (IF Emit THEN {"ask", "bpsk", "qpsk", "fsk"} ELSE {"bpsk"})
        /\ n \in 3..MaxN /\ L \in 1..(MaxN + 1) /\ sym = 0 /\ left = 0 /\ out = <<>> /\ drawn = 0
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson([kind |-> kind, n |-> n, L |-> L])>>) ELSE TRUE
Draw == /\ ~Emit /\ left = 0 /\ Len(out) < n
        /\ \E s \in A : sym' = s
        /\ left' = L /\ drawn' = drawn + 1 /\ UNCHANGED <<kind, n, L, out>>
Send == /\ ~Emit /\ left > 0 /\ Len(out) < n
        /\ out' = Append(out, <<sym, drawn>>) /\ left' = left - 1 /\ UNCHANGED <<kind, n, L, sym, drawn>>
Next == Draw \/ Send
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Held == \A a \in 1..Len(out) : out[a][2] = ((a - 1) \div L) + 1
OneSymbol == \A a, b \in 1..Len(out) : out[a][2] = out[b][2] => out[a][1] = out[b][1]
NoWaste == Len(out) = n => drawn = CeilDiv(n, L)
Finishes == <>(Emit \/ Len(out) = n)
=============================================================================
