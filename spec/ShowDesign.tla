------------------------------ MODULE ShowDesign ------------------------------
(* plot() as a machine over the object, the figures and the screen.  The display    *)
(* matrix is worked on in three steps (halve and take the modulus, threshold, draw)  *)
(* on the object itself, which is put back whatever happens, also when drawing        *)
(* fails.  TLC explores every sequence of MaxOps plots and checks that the object is    *)
(* intact between calls, that a figure appears exactly when one is needed and that       *)
(* nothing is shown unasked.  With Restore = FALSE (the defect repaired in /repo) the     *)
(* second plot shows a thresholded threshold: Intact is refuted.                           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, Restore, Emit
VARIABLES mat, saved, pc, op, figs, shows, log
vars == <<mat, saved, pc, op, figs, shows, log>>
Ops == [kind : {"cmap", "contour", "surf", "wireframe"}, ax : BOOLEAN, show : BOOLEAN, tf : BOOLEAN, ann : BOOLEAN]
Legal(o) == o.tf => o.kind \in {"cmap", "contour"}
Solid(kind) == kind \in {"surf", "wireframe"}
NeedsFigure(o) == o.tf \/ Solid(o.kind) \/ ~o.ax
None == [kind |-> "cmap", ax |-> FALSE, show |-> FALSE, tf |-> FALSE, ann |-> FALSE]
Init == mat = 8 /\ saved = 8 /\ pc = "idle" /\ op = None /\ figs = 0 /\ shows = 0 /\ log = <<>>
Begin == /\ pc = "idle" /\ Len(log) < MaxOps
         /\ op' \in {o \in Ops : Legal(o)} /\ saved' = mat /\ pc' = "modulus"
         /\ log' = Append(log, op') /\ UNCHANGED <<mat, figs, shows>>
         /\ (Emit /\ Len(log') = MaxOps) => PrintT(<<"SCEN", ToJson([ops |-> log'])>>)
Modulus == pc = "modulus" /\ mat' = mat \div 2 /\ pc' = "threshold" /\ UNCHANGED <<saved, op, figs, shows, log>>
Threshold == pc = "threshold" /\ mat' = mat - 1 /\ pc' = "draw" /\ UNCHANGED <<saved, op, figs, shows, log>>
Draw == /\ pc = "draw" /\ figs' = figs + (IF NeedsFigure(op) THEN 1 ELSE 0)
        /\ pc' \in {"show", "restore"} \* restore directly: the drawing failed
        /\ UNCHANGED <<mat, saved, op, shows, log>>
Show == pc = "show" /\ shows' = shows + (IF op.show THEN 1 ELSE 0) /\ pc' = "restore" /\ UNCHANGED <<mat, saved, op, figs, log>>
Back == pc = "restore" /\ mat' = (IF Restore THEN saved ELSE mat) /\ pc' = "idle" /\ UNCHANGED <<saved, op, figs, shows, log>>
Skip == pc = "modulus" /\ pc' = "idle" /\ UNCHANGED <<mat, saved, op, figs, shows, log>>
Next == IF Emit THEN Begin \/ Skip
        ELSE Begin \/ Modulus \/ Threshold \/ Draw \/ Show \/ Back
Spec == Init /\ [][Next]_vars
Intact == pc = "idle" => mat = 8
FiguresCounted == LET RECURSIVE F(_)
                      F(j) == IF j = 0 THEN 0 ELSE F(j - 1) + (IF NeedsFigure(log[j]) THEN 1 ELSE 0)
                  IN  pc = "idle" => figs = F(Len(log))
NeverUnasked == LET RECURSIVE F(_)
                    F(j) == IF j = 0 THEN 0 ELSE F(j - 1) + (IF log[j].show THEN 1 ELSE 0)
                IN  shows <= F(Len(log))
=============================================================================
