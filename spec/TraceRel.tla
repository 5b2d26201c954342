------------------------------- MODULE TraceRel -------------------------------
(* Covariance relations between runs of the same distribution on related       *)
(* signals.  A behaviour is a sequence of runs; the observation of a run is its *)
(* matrix in fixed point (common scale for the behaviour), row-major, complex    *)
(* entries as consecutive re, im.  What the relation is follows here from the    *)
(* class of the distribution and from what was done to the signal:               *)
(*   op = "scale"   run 2 is the signal times the Gaussian integer c.a           *)
(*   op = "shift"   run 2 is the signal modulated by c.s whole frequency bins    *)
(*   op = "sum"     runs are x, y, x + y                                         *)
(*   op = "para"    runs are x, y, x + y, x - y                                  *)
(*   op = "same"    run 2 is the same signal in another layout or numeric type   *)
(*   op = "delay"   run 2 is the signal (zero-padded) c.s samples later           *)
EXTENDS GInt, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

LinearKinds == {"stft"}
\* kinds whose frequency axis is k/2n: modulation by s/n moves rows by 2s
HalfKinds == {"wv", "pwv", "spwv", "rpwv", "rspwv"}
\* signal-independent column geometry: matrix stays put under modulation up to a
\* factor of modulus one per column
AmbKinds == {"amb"}

Entries(c) == c.rows * c.cols
Comp(c) == IF c.cplx THEN 2 ELSE 1
Re(c, j, r, t) == c.obs[j][(r * c.cols + t) * Comp(c) + 1]
Im(c, j, r, t) == IF c.cplx THEN c.obs[j][(r * c.cols + t) * 2 + 2] ELSE 0
V(c, j, r, t) == <<Re(c, j, r, t), Im(c, j, r, t)>>
Near(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol

Cells(c) == (0..(c.rows - 1)) \X (0..(c.cols - 1))
RowsOf(c, s) == IF c.kind \in HalfKinds THEN 2 * s ELSE s
Factor(c) == IF c.kind \in LinearKinds THEN c.a ELSE <<Sq(c.a), 0>>

\* expected value of cell (r, t) of the last run, and tolerance in units
Bad(c) ==
    CASE c.op = "scale" ->
           \E rt \in Cells(c) : ~Near(V(c, 2, rt[1], rt[2]), Mul(Factor(c), V(c, 1, rt[1], rt[2])), c.tol * (1 + Abs(Factor(c)[1]) + Abs(Factor(c)[2])))
      [] c.op = "shift" /\ c.kind # "stft" ->
           \E rt \in Cells(c) : ~Near(V(c, 2, ((rt[1] + RowsOf(c, c.s)) % c.rows), rt[2]), V(c, 1, rt[1], rt[2]), c.tol)
      [] c.op = "sum" ->
           \E rt \in Cells(c) : ~Near(V(c, 3, rt[1], rt[2]), Add(V(c, 1, rt[1], rt[2]), V(c, 2, rt[1], rt[2])), 3 * c.tol)
      [] c.op = "para" ->
           \E rt \in Cells(c) : ~Near(Add(V(c, 3, rt[1], rt[2]), V(c, 4, rt[1], rt[2])),
                                      Scl(2, Add(V(c, 1, rt[1], rt[2]), V(c, 2, rt[1], rt[2]))), 6 * c.tol)
      [] c.op = "same" ->
           \E rt \in Cells(c) : ~Near(V(c, 2, rt[1], rt[2]), V(c, 1, rt[1], rt[2]), c.tol)
      [] c.op = "delay" ->
           \E rt \in Cells(c) : rt[2] >= c.lo /\ rt[2] + c.s <= c.hi
                 /\ ~Near(V(c, 2, rt[1], rt[2] + c.s), V(c, 1, rt[1], rt[2]), c.tol)

Runs(c) == CASE c.op \in {"scale", "shift", "same", "delay"} -> 2 [] c.op = "sum" -> 3 [] c.op = "para" -> 4

Steps(c) == 0
M0(c) == 0
MNext(c, kk, mm) == 0
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF Len(c.obs) # Runs(c) \/ \E j \in 1..Len(c.obs) : Len(c.obs[j]) # Entries(c) * Comp(c)
    THEN {"shape"}
    ELSE IF c.cplx # (c.kind \in LinearKinds \cup AmbKinds) THEN {"reality"}
    ELSE IF Bad(c) THEN {c.op} ELSE {}

INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
