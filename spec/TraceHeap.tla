------------------------------- MODULE TraceHeap -------------------------------
(* Histories of library calls, seen as a heap of arrays.  Step k is one call:       *)
(*   ins[k]   the arrays handed in for the first time at this step (content ids)     *)
(*   outs[k]  the arrays it returned (content ids)                                    *)
(*   live[k]  the content of every array known so far, re-read after the call         *)
(*   res[k]   id of the whole result (0 when the call returns nothing)                *)
(*   wrote[k] <<position, content>> of the arrays the CALLER overwrote at this step     *)
(*            (everything it can reach through one object or one result)                 *)
(* The model state is the heap the specification expects, plus the result each        *)
(* named call has been seen to give.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
Written(c, kk, h) ==
    LET at == {c.wrote[kk][j][1] : j \in 1..Len(c.wrote[kk])}
    IN  [p \in 1..Len(h) |-> IF p \in at THEN (CHOOSE w \in {c.wrote[kk][j] : j \in 1..Len(c.wrote[kk])} : w[1] = p)[2] ELSE h[p]]
M0(c) == [heap |-> <<>>, seen |-> {}, nin |-> 0]
\* m at step kk is the heap BEFORE the call, inputs of the call included
MNext(c, kk, mm) ==
    [heap |-> (IF kk = 1 THEN <<>> ELSE Written(c, kk - 1, mm.heap \o c.outs[kk - 1])) \o c.ins[kk],
     seen |-> IF kk = 1 THEN {} ELSE mm.seen \cup {<<c.name[kk - 1], c.res[kk - 1]>>}, nin |-> 0]
Steps(c) == IF c.status = "ok" THEN Len(c.name) ELSE 0
\* which positions of the heap are inputs
RECURSIVE InPos(_, _)
InPos(c, kk) == IF kk = 0 THEN {} ELSE
    LET before == LET RECURSIVE S(_)
                      S(j) == IF j = 0 THEN 0 ELSE Len(c.ins[j]) + Len(c.outs[j]) + S(j - 1)
                  IN  S(kk - 1)
    IN  InPos(c, kk - 1) \cup ((before + 1)..(before + Len(c.ins[kk])))
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF kk = 0 THEN (IF Len(c.live) # Len(c.name) THEN {"completes"} ELSE {})
    ELSE LET n == Len(mm.heap)
             want == Written(c, kk, mm.heap \o c.outs[kk])
             inp == InPos(c, kk)
             diff == {j \in 1..n : c.live[kk][j] # want[j]}
         IN  (IF Len(c.live[kk]) # Len(want) THEN {"observer"} ELSE {})
             \cup (IF diff \cap inp # {} THEN {"inputs-unmodified"} ELSE {})
             \cup (IF diff \ inp # {} THEN {"results-kept"} ELSE {})
             \cup (IF c.err[kk] # "" THEN {"accepts"} ELSE {})
             \cup (IF c.res[kk] # 0 /\ \E p \in mm.seen : p[1] = c.name[kk] /\ p[2] # c.res[kk] THEN {"repeatable"} ELSE {})
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
