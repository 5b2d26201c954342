------------------------------- MODULE TraceIfl -------------------------------
(* plotifl.  Step k is call k of a history.  c.calls[k]: the laws (thousandths,      *)
(* UND where undefined), the instants (quarters), the real part of the signal (empty:   *)
(* none), whether the grid is wanted.  Observed when the figure is displayed: the panels   *)
(* from top to bottom with their lines, limits and labels; around the call: figures made,     *)
(* displays, arrays and other figures left as they were.                                         *)
EXTENDS GInt, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
UND == 10 ^ 9
Defined(o) == UNION {{o.laws[a][b] : b \in 1..Len(o.laws[a])} : a \in 1..Len(o.laws)} \ {UND}
Lo(v) == MinOf(LAMBDA j : v[j], 1, Len(v))
Hi(v) == MaxOf(LAMBDA j : v[j], 1, Len(v))
Curve(l, xs, ys) == l.x = xs /\ l.y = ys
LawPanel(o, p) ==
    (IF Len(p.lines) = Len(o.laws) /\ \A a \in 1..Len(o.laws) : Curve(p.lines[a], o.ts, o.laws[a]) THEN {} ELSE {"laws"})
    \cup (IF p.xlim = <<Lo(o.ts), Hi(o.ts)>> THEN {} ELSE {"time-span"})
    \cup (IF p.ylim = (IF \E v \in Defined(o) : v < 0 THEN <<-500, 500>> ELSE <<0, 500>>) THEN {} ELSE {"frequency-span"})
    \cup (IF p.grid = o.grid THEN {} ELSE {"grid"})
    \cup (IF p.lab = <<"Time", "Normalized frequency", "Instantaneous frequency law(s)">> THEN {} ELSE {"labels"})
SigPanel(o, p) ==
    (IF Len(p.lines) = 1 /\ Curve(p.lines[1], o.ts, o.sig) THEN {} ELSE {"signal"})
    \cup (IF p.xlim = <<Lo(o.ts), Hi(o.ts)>> THEN {} ELSE {"time-span"})
    \cup (IF p.lab[3] = "Signal" THEN {} ELSE {"labels"})
CallBad(o, d) ==
    IF d.err # "" THEN {"completes"} ELSE
    (IF d.figs = 1 THEN {} ELSE {"one-figure"})
    \cup (IF d.shows = 1 THEN {} ELSE {"displayed-once"})
    \cup (IF d.same = 1 THEN {} ELSE {"only-observes"})
    \cup (IF d.others = 1 THEN {} ELSE {"other-figures"})
    \cup (LET n == IF o.sig = <<>> THEN 1 ELSE 2
          IN  IF Len(d.panels) # n THEN {"panels"}
              ELSE LawPanel(o, d.panels[n])
                   \cup (IF n = 2 THEN SigPanel(o, d.panels[1]) \cup (IF d.apart THEN {} ELSE {"overlap"}) ELSE {}))
M0(c) == 0
MNext(c, kk, mm) == 0
Steps(c) == IF c.status = "ok" /\ Len(c.obs) = Len(c.calls) THEN Len(c.calls) ELSE 0
Judge(c, kk, mm) ==
    IF kk = 0 THEN (IF c.status = "ok" /\ Len(c.obs) = Len(c.calls) THEN {} ELSE {"completes"})
    ELSE CallBad(c.calls[kk], c.obs[kk])
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
