------------------------------- MODULE Engine -------------------------------
(* Trace-validation engine.  A trace file holds one recorded behaviour of the *)
(* implementation per line; a behaviour is an initial observation followed by *)
(* Steps(c) further ones (one per column of a distribution, one per operation *)
(* of a history, ...).  The engine runs the specification's own model state m *)
(* along the behaviour (M0, MNext) and asks Judge which clauses of the        *)
(* specification the observation violates.  It never stops at a failure: the  *)
(* verdict is total, and names the clauses.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Cases, Steps(_), M0(_), MNext(_, _, _), Judge(_, _, _)

VARIABLES i,    \* index of the behaviour being validated
          k,    \* index of the observation inside it; 0 is the initial one
          m,    \* state of the specification's model at that point
          nbad  \* number of rejected observations so far

NCases == Len(Cases)

evars == <<i, k, m, nbad>>

EInit == i = 1 /\ k = 0 /\ nbad = 0 /\ m = (IF NCases = 0 THEN 0 ELSE M0(Cases[1]))

EStep ==
    /\ i <= NCases
    /\ LET c == Cases[i]
           f == Judge(c, k, m)
       IN  /\ IF f = {} THEN TRUE ELSE PrintT(<<"BAD", c.id, k, f>>)
           /\ nbad' = nbad + (IF f = {} THEN 0 ELSE 1)
           /\ IF k >= Steps(c)
              THEN /\ i' = i + 1 /\ k' = 0
                   /\ m' = (IF i + 1 <= NCases THEN M0(Cases[i + 1]) ELSE 0)
              ELSE /\ i' = i /\ k' = k + 1
                   /\ m' = MNext(c, k + 1, m)

EDone == i = NCases + 1 /\ k = 0 /\ PrintT(<<"DONE", NCases, nbad>>)
           /\ k' = -1 /\ UNCHANGED <<i, m, nbad>>

ENext == EStep \/ EDone
=============================================================================
