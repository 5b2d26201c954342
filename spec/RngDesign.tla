------------------------------ MODULE RngDesign ------------------------------
(* The library as a client of one global pseudo-random generator.  The           *)
(* generator's state is (seed, number of draws); random calls draw, others do    *)
(* not.  TLC checks that results are a function of the state (hence reproducible  *)
(* by re-seeding), enumerates the histories that are replayed into the library.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Emit
Random == {"noisecu", "noisecg", "dopnoise", "anaask", "anabpsk", "anaqpsk", "anafsk"}
Others == {"det"}
VARIABLES seed, draws, hist, ops
vars == <<seed, draws, hist, ops>>
Cost(op) == CASE op \in {"noisecu", "noisecg"} -> 3 [] op = "dopnoise" -> 5 [] OTHER -> 2
Init == seed = 1 /\ draws = 0 /\ hist = <<>> /\ ops = <<>>
Note(o) == ops' = Append(ops, o)
Draw(o) == /\ hist' = Append(hist, [call |-> o, at |-> <<seed, draws>>, out |-> <<o, seed, draws>>])
           /\ draws' = draws + Cost(o) /\ seed' = seed /\ Note(o)
Det(o) == hist' = Append(hist, [call |-> o, at |-> <<seed, draws>>, out |-> <<o>>]) /\ UNCHANGED <<seed, draws>> /\ Note(o)
Reseed(s) == seed' = s /\ draws' = 0 /\ UNCHANGED hist /\ Note(IF s = 1 THEN "seed1" ELSE "seed2")
Next == /\ Len(ops) < Depth
        /\ (\E o \in Random : Draw(o)) \/ (\E o \in Others : Det(o)) \/ (\E s \in {1, 2} : Reseed(s))
        /\ IF Emit /\ Len(ops') = Depth THEN PrintT(<<"SCEN", ToJson([ops |-> ops'])>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
Reproducible == \A a, b \in 1..Len(hist) : (hist[a].call = hist[b].call /\ hist[a].at = hist[b].at) => hist[a].out = hist[b].out
Fresh == \A a, b \in 1..Len(hist) : (hist[a].call = hist[b].call /\ hist[a].call \in Random /\ hist[a].at # hist[b].at) => hist[a].out # hist[b].out
=============================================================================
