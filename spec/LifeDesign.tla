------------------------------ MODULE LifeDesign ------------------------------
(* Life of representation objects sharing a heap.  Each object is built from the    *)
(* same caller array and makes its own default window; running it allocates a fresh  *)
(* matrix whose value depends on the window, plotting works on a display copy and     *)
(* puts the matrix back.  The caller may scribble over everything it can reach         *)
(* through an object (its matrix, its window) and use that object no more.             *)
(* TLC explores every interleaving of up to MaxOps operations on NObj objects and       *)
(* checks that caller arrays never change, that a matrix once returned keeps its        *)
(* value, and that each run yields what a fresh object would.  With Broken = "reuse"    *)
(* the run reuses the object's matrix, with "share" default windows are shared between  *)
(* objects; these invariants refute both.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NObj, MaxOps, Broken, Emit
VARIABLES heap, obj, win, ret, dirty, log
vars == <<heap, obj, win, ret, dirty, log>>
Objs == 1..NObj
Window == 5
\* heap cell 1 is the caller's array; obj and win hold addresses, 0 before they exist
Value(o) == 10 + o + Window              \* what running object o must give
Init == heap = <<7>> /\ obj = [o \in Objs |-> 0] /\ win = [o \in Objs |-> 0] /\ ret = {} /\ dirty = {} /\ log = <<>>
Other(o) == {win[p] : p \in Objs \ {o}} \ {0}
Run(o) == LET shared == Broken = "share" /\ Other(o) # {}
              h1 == IF win[o] # 0 \/ shared THEN heap ELSE Append(heap, Window)
              w == IF win[o] # 0 THEN win[o] ELSE IF shared THEN CHOOSE a \in Other(o) : TRUE ELSE Len(h1)
              val == 10 + o + h1[w]
          IN  /\ o \notin dirty
              /\ win' = [win EXCEPT ![o] = w]
              /\ IF Broken = "reuse" /\ obj[o] # 0
                 THEN heap' = [h1 EXCEPT ![obj[o]] = @ + val] /\ UNCHANGED obj
                 ELSE heap' = Append(h1, val) /\ obj' = [obj EXCEPT ![o] = Len(h1) + 1]
              /\ ret' = ret \cup {<<o, obj'[o]>>} /\ log' = Append(log, <<"run", o>>) /\ UNCHANGED dirty
\* plotting: copy, threshold the copy, restore
Plot(o) == /\ obj[o] # 0 /\ o \notin dirty
           /\ heap' = Append(heap, 0) /\ log' = Append(log, <<"plot", o>>) /\ UNCHANGED <<obj, win, ret, dirty>>
Call == heap' = Append(heap, 3) /\ log' = Append(log, <<"call", 0>>) /\ UNCHANGED <<obj, win, ret, dirty>>
Scribble(o) == /\ obj[o] # 0 /\ o \notin dirty
               /\ heap' = [heap EXCEPT ![obj[o]] = 99, ![win[o]] = 99]
               /\ dirty' = dirty \cup {o} /\ log' = Append(log, <<"scribble", o>>) /\ UNCHANGED <<obj, win, ret>>
Next == /\ Len(log) < MaxOps
        /\ \/ \E o \in Objs : Run(o) \/ Plot(o) \/ Scribble(o)
           \/ Call
        /\ (Emit /\ Len(log') = MaxOps) => PrintT(<<"SCEN", ToJson([ops |-> log'])>>)
Spec == Init /\ [][Next]_vars
CallerKept == heap[1] = 7
ResultsKept == \A p \in ret : p[1] \notin dirty => heap[p[2]] = Value(p[1])
=============================================================================
