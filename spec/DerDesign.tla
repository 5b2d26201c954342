------------------------------ MODULE DerDesign ------------------------------
(* The window-derivative pipeline as a machine: the line through the end points is *)
(* taken off, the rest is differentiated sample by sample from left to right, the   *)
(* slope and the end steps are put back.  Over every window of up to MaxL samples   *)
(* with values in A, TLC checks: what is left after removing the line vanishes at   *)
(* both ends; interior samples are the plain centred differences; a pure line has    *)
(* its slope everywhere but the end steps; the derivative of a mirrored window is     *)
(* the mirrored derivative with its sign changed.                                     *)
EXTENDS GInt, TLC, Json
CONSTANTS MaxL, A, Emit
VARIABLES w, dw
vars == <<w, dw>>
N(v) == Len(v)
Base(v, j) == IF j < 1 \/ j > N(v) THEN 0
              ELSE 2 * (N(v) - 1) * v[j] - (N(v) - 1) * (v[1] + v[N(v)]) - (v[N(v)] - v[1]) * (2 * j - 1 - N(v))
Der(v, j) == ((Base(v, j + 1) - Base(v, j - 1)) \div 2) + 2 * (v[N(v)] - v[1])
             + (IF j = 1 THEN (N(v) - 1) * (v[1] + v[N(v)]) ELSE 0) - (IF j = N(v) THEN (N(v) - 1) * (v[1] + v[N(v)]) ELSE 0)
Init == /\ w \in UNION {[1..l -> A] : l \in 2..MaxL} /\ dw = <<>>
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson([w |-> w])>>) ELSE TRUE
Take == ~Emit /\ Len(dw) < Len(w) /\ dw' = Append(dw, Der(w, Len(dw) + 1)) /\ UNCHANGED w
Spec == Init /\ [][Take]_vars /\ WF_vars(Take)
Done == Len(dw) = Len(w)
EndsVanish == Base(w, 1) = 0 /\ Base(w, N(w)) = 0
Interior == \A j \in 2..Min(Len(dw), N(w) - 1) : dw[j] = (N(w) - 1) * (w[j + 1] - w[j - 1])
Rev(v) == [j \in 1..Len(v) |-> v[Len(v) + 1 - j]]
Mirror == Done => \A j \in 1..N(w) : Der(Rev(w), j) = -dw[N(w) + 1 - j]
Line == (Done /\ \A j \in 1..(N(w) - 1) : w[j + 1] - w[j] = w[2] - w[1]) =>
          \A j \in 1..N(w) : dw[j] = 2 * (N(w) - 1) * (w[2] - w[1])
              + (IF j = 1 THEN (N(w) - 1) * (w[1] + w[N(w)]) ELSE 0) - (IF j = N(w) THEN (N(w) - 1) * (w[1] + w[N(w)]) ELSE 0)
Finishes == <>(Emit \/ Done)
=============================================================================
