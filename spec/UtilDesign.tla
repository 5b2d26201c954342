------------------------------ MODULE UtilDesign ------------------------------
(* The search behind divider(): start at the ceiling of the root, step down until  *)
(* a divisor is met.  TLC checks for every N up to MaxN that it terminates, on a     *)
(* factor pair, and that no factor pair is closer; and the doubling loop that         *)
(* defines the next power of two.                                                     *)
EXTENDS GInt, TLC, Json
CONSTANTS MaxN, Emit
VARIABLES n, cand, done, e, pw
vars == <<n, cand, done, e, pw>>
Root(v) == CHOOSE r \in 0..v : r * r <= v /\ (r + 1) * (r + 1) > v
CeilRoot(v) == LET r == Root(v) IN IF r * r = v THEN r ELSE r + 1
Init == /\ n \in 1..MaxN /\ cand = CeilRoot(n) /\ done = FALSE /\ e = 0 /\ pw = 1
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson([n |-> n])>>) ELSE TRUE
Down == /\ ~Emit /\ ~done
        /\ IF n % cand = 0 THEN done' = TRUE /\ UNCHANGED cand ELSE cand' = cand - 1 /\ UNCHANGED done
        /\ UNCHANGED <<n, e, pw>>
Double == ~Emit /\ pw < n /\ pw' = 2 * pw /\ e' = e + 1 /\ UNCHANGED <<n, cand, done>>
Next == Down \/ Double
Spec == Init /\ [][Next]_vars /\ WF_vars(Down) /\ WF_vars(Double)
Found == done => (n % cand = 0 /\ \A d \in 1..n : (n % d = 0 /\ d * d <= n) => d <= Min(cand, n \div cand))
Stays == cand >= 1
Least == pw >= n => (e = 0 \/ pw \div 2 < n)
Finishes == <>(Emit \/ (done /\ pw >= n))
=============================================================================
