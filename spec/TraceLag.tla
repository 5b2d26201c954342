------------------------------ MODULE TraceLag ------------------------------
(* Validates recorded runs of the fixed-grid distributions against Kernels.   *)
(* Observation k = 1..C is column k-1 of the returned matrix, decoded by an   *)
(* inverse DFT into kernel entries [re0, im0, re1, im1, ...] (bilinear kinds: *)
(* times 4).  c.inst[k] is the sample the column belongs to.                  *)
EXTENDS Kernels, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

Steps(c) == IF c.status = "ok" THEN Len(c.obs) ELSE 0
M0(c) == 0
MNext(c, kk, mm) == 0

ColBad(c, kk) ==
    LET t == c.inst[kk]
        o == c.obs[kk]
    IN  IF Len(o) # 2 * c.n THEN {"rows"}
        ELSE (IF \E r \in 0..(c.n - 1) : <<o[2 * r + 1], o[2 * r + 2]>> # Cell(c, t, r)
              THEN {"kernel"} ELSE {})

Judge(c, kk, mm) ==
    IF kk = 0
    THEN (IF c.status # "ok" THEN {"completes"} ELSE
           (IF c.shape # <<c.n, Len(c.inst)>> THEN {"shape"} ELSE {})
           \cup (IF c.real # (c.kind # "stft") THEN {"reality"} ELSE {})
           \cup (IF c.agree THEN {} ELSE {"returned-is-stored"}))
    ELSE ColBad(c, kk)

INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
