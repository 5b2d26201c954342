------------------------------ MODULE TraceAxes ------------------------------
(* Geometry of the fixed-grid distributions: shape, time labels, frequencies.  *)
EXTENDS Kernels, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

Steps(c) == 0
M0(c) == 0
MNext(c, kk, mm) == 0

Bins(c) == IF c.defn THEN c.N ELSE c.n
Ts(c) == IF c.defts THEN [j \in 1..c.N |-> (j - 1) * c.tscale] ELSE c.ts
\* frequency axis times 2n
Axis(c) == [j \in 1..Bins(c) |-> IF c.kind \in {"wv", "pwv"} THEN WVAxis(Bins(c), j - 1)
                                  ELSE FFTAxis(Bins(c), j - 1)]
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"} ELSE
      (IF c.shape # <<Bins(c), Len(Ts(c))>> THEN {"shape"} ELSE {})
      \cup (IF c.tsout # Ts(c) THEN {"time-axis"} ELSE {})
      \cup (IF c.freqs # Axis(c) THEN {"frequency-axis"} ELSE {})
      \cup (IF c.attrts # Ts(c) THEN {"time-attribute"} ELSE {})
      \cup (IF c.attrfreqs # Axis(c) THEN {"frequency-attribute"} ELSE {})
      \cup (IF c.attrshape # <<Bins(c), Len(Ts(c))>> THEN {"matrix-attribute"} ELSE {})
      \cup (IF c.flat THEN {} ELSE {"flat-signal"})

INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
