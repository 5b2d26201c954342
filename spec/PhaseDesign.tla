----------------------------- MODULE PhaseDesign -----------------------------
(* The oscillator behind the frequency-modulated generators: one sample per     *)
(* step, the phase advancing by the integral of the law over the step (its last  *)
(* value for an arbitrary law).  Checked against the closed forms, and against   *)
(* the requirement that the phase vanishes at the reference sample.              *)
EXTENDS GInt, TLC, Json
CONSTANTS MaxN, R, Emit
VARIABLES c, j, ph, hist
vars == <<c, j, ph, hist>>
Co == -R..R
M == 8
Cfgs == {[kind |-> kd, n |-> n, a |-> a, b |-> b, d |-> d, t0 |-> t0, M |-> M] :
            kd \in {"const", "lin", "par"}, n \in 2..MaxN, a \in Co, b \in Co, d \in Co, t0 \in 1..MaxN}
Ok(x) == x.t0 <= x.n /\ (x.kind # "par" => x.d = 0) /\ (x.kind = "const" => x.b = 0)
Adv(x, s) == CASE x.kind = "const" -> x.a * 2 * (x.n - 1)
               [] x.kind = "lin" -> 2 * x.a * (x.n - 1) + (x.b - x.a) * (2 * s - 1)
               [] x.kind = "par" -> 6 * x.a + 3 * x.b * (2 * s - 1) + 2 * x.d * (3 * s * s - 3 * s + 1)
Closed(x, s) == CASE x.kind = "const" -> x.a * 2 * (x.n - 1) * s
                  [] x.kind = "lin" -> 2 * (x.n - 1) * x.a * s + (x.b - x.a) * s * s
                  [] x.kind = "par" -> 6 * x.a * s + 3 * x.b * s * s + 2 * x.d * s * s * s
\* the law at half sample s2/2, in halves of the unit of the phase advance
Law2(x, s2) ==
    CASE x.kind = "const" -> 4 * x.a * (x.n - 1)
      [] x.kind = "lin" -> 4 * x.a * (x.n - 1) + 2 * (x.b - x.a) * s2
      [] x.kind = "par" -> 12 * x.a + 6 * x.b * s2 + 3 * x.d * s2 * s2
Init == /\ c \in {x \in Cfgs : Ok(x)} /\ j = 0 /\ hist = <<>>
        /\ ph = -Closed(c, IF c.kind = "par" THEN 0 ELSE c.t0 - 1)
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson(c)>>) ELSE TRUE
Next == /\ ~Emit /\ j < c.n
        /\ hist' = Append(hist, ph) /\ j' = j + 1 /\ ph' = ph + Adv(c, j + 1) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Reference == (c.kind # "par" /\ j >= c.t0) => hist[c.t0] = 0
ClosedForm == \A s \in 1..j : hist[s] = Closed(c, s - 1) - Closed(c, IF c.kind = "par" THEN 0 ELSE c.t0 - 1)
\* Simpson's rule is exact for polynomial laws: twelve times the advance (in the
\* kind's units) is f(s-1) + 4 f(s-1/2) + f(s) with the law in the same units
Simpson == \A s \in 1..(j - 1) :
    12 * (hist[s + 1] - hist[s]) = Law2(c, 2 * s - 2) + 4 * Law2(c, 2 * s - 1) + Law2(c, 2 * s)
Quadratic == c.kind = "lin" => \A s \in 1..(j - 2) : hist[s + 2] - 2 * hist[s + 1] + hist[s] = 2 * (c.b - c.a)
Cubic == c.kind = "par" => \A s \in 1..(j - 3) : hist[s + 3] - 3 * hist[s + 2] + 3 * hist[s + 1] - hist[s] = 12 * c.d
=============================================================================
