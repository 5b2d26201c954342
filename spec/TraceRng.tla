------------------------------- MODULE TraceRng -------------------------------
(* Randomness.  History cases: step k is one library call, observed as           *)
(*   <<call, state of NumPy's generator before, after, result>>                   *)
(* (states and results are numbered by first appearance).  The model state m is   *)
(* the generator's transition relation as far as the history has revealed it.     *)
(* Noise cases: shape and statistics of one output.                               *)
EXTENDS GInt, Tables, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

Seeds == {"seed1", "seed2"}
Random == {"noisecu", "noisecg", "dopnoise", "anaask", "anabpsk", "anaqpsk", "anafsk"}
Rejecting == {"noisecg", "dopnoise"}   \* normal deviates are drawn by rejection: two states can lead to the same ones
Discrete == {"anabpsk", "anaqpsk", "anafsk"}             \* short messages may repeat by chance

Call(c, kk) == c.ops[kk]
Obs(c, kk) == [call |-> c.ops[kk], pre |-> c.pre[kk], post |-> c.post[kk], out |-> c.out[kk]]
M0(c) == {}
MNext(c, kk, mm) == IF c.kind # "history" THEN {} ELSE IF kk = 1 THEN {} ELSE mm \cup {Obs(c, kk - 1)}
Steps(c) == IF c.status = "ok" /\ c.kind = "history" THEN Len(c.ops) ELSE 0

HistBad(c, kk, mm) ==
    LET o == Obs(c, kk)
        same == {p \in mm : p.call = o.call}
    IN  (IF kk > 1 /\ o.pre # c.post[kk - 1] THEN {"observer"} ELSE {})
        \cup (IF o.call \in Seeds
              THEN (IF \E p \in same : p.post # o.post THEN {"seeding"} ELSE {})
              ELSE IF o.call \in Random
              THEN (IF \E p \in same : p.pre = o.pre /\ p.out # o.out THEN {"reproducible"} ELSE {})
                   \cup (IF \E p \in same : p.pre = o.pre /\ p.post # o.post THEN {"reproducible-state"} ELSE {})
                   \cup (IF o.post = o.pre THEN {"draws"} ELSE {})
                   \cup (IF (c.rich \/ o.call \notin Discrete) /\ (\E p \in same : p.pre # o.pre /\ p.out = o.out
                                                                          /\ (o.call \in Rejecting => p.post = o.pre))
                         THEN {"fresh"} ELSE {})
              ELSE (IF o.post # o.pre THEN {"generator-untouched"} ELSE {})
                   \cup (IF \E p \in same : p.out # o.out THEN {"deterministic"} ELSE {}))

\* ---- one output ------------------------------------------------------------------
RECURSIVE IsPow2(_)
IsPow2(n) == IF n = 1 THEN TRUE ELSE n % 2 = 0 /\ IsPow2(n \div 2)
NoiseBad(c) ==
    (IF c.len # c.n THEN {"length"} ELSE {})
    \cup (IF c.cplx THEN {} ELSE {"complex"})
    \cup (IF c.n > 2 /\ IsPow2(c.n) /\ c.neg # 0 THEN {"analytic"} ELSE {})
    \cup (IF c.n > 2 /\ IsPow2(c.n) /\ Abs(c.var - 500000) > 2 THEN {"variance"} ELSE {})
\* noisy Doppler: distances in units of one sample's travel, so that the emitter is
\* j = k - tc units from the closest point at sample k (1-based), D2 + j^2 <= 300;
\* f = a/1000 of the sampling rate and speed / wave speed = p/q.
J(c, kk) == kk - (IF c.deftc THEN c.n \div 2 ELSE c.tc)
Ratio(j, s) == LET u == j * 125000 * 1000 IN 1000 * (u \div s) + 2 * (((u % s) * 500) \div s)  \* 10^6 j / dist
DopLaw(c, kk) == LET j == J(c, kk)
                     r == Ratio(j, SqrtT[c.D2 + j * j])
                 IN  1000 * c.a - ((((c.a * r) \div 1000) * c.p) \div c.q)
DopBad(c) ==
    (IF c.len # c.n \/ Len(c.law) # c.n THEN {"length"} ELSE
     IF \E kk \in 1..c.n : Abs(c.law[kk] - DopLaw(c, kk)) > 4 THEN {"law"} ELSE {})
    \cup (IF Abs(c.energy - 1000000) <= 2 THEN {} ELSE {"unit-energy"})

\* ---- many samples (in units of 10^-4, at least 8000 samples) -------------------------
\* unit power shared equally by the two parts, which are uncorrelated and centred; the
\* real part is uniform (kurtosis 9/5) or Gaussian (3); the positive frequencies carry
\* the power evenly, the negative ones none of it.
Near(a, b, e) == Abs(a - b) <= e
StatBad(c) ==
    (IF c.len # c.n THEN {"length"} ELSE {})
    \cup (IF Near(c.pw, 10000, 800) /\ Near(c.re2, 5000, 500) THEN {} ELSE {"power"})
    \cup (IF c.mean <= 600 THEN {} ELSE {"centred"})
    \cup (IF c.circ <= 700 THEN {} ELSE {"circular"})
    \cup (IF c.gen = "noisecu" /\ ~Near(c.kurt, 18000, 1500) THEN {"uniform"} ELSE {})
    \cup (IF c.gen = "noisecg" /\ ~Near(c.kurt, 30000, 4000) THEN {"gaussian"} ELSE {})
    \cup (IF \E j \in 1..Len(c.bands) : ~Near(c.bands[j], IF j <= 4 THEN 2500 ELSE 0, 300) THEN {"white"} ELSE {})
\* noisy Doppler: analytic once its distance attenuation is undone, and gathered around
\* its instantaneous frequency (poles of radius 0.9: more than 4/5 within 0.06)
DopStatBad(c) ==
    (IF c.len # c.n THEN {"length"} ELSE {})
    \cup (IF c.neg # 0 THEN {"analytic"} ELSE {})
    \cup (IF c.near < 6500 THEN {"gathered"} ELSE {})

Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF c.kind = "noise" THEN NoiseBad(c)
    ELSE IF c.kind = "stat" THEN StatBad(c)
    ELSE IF c.kind = "dopstat" THEN DopStatBad(c)
    ELSE IF c.kind = "dop" THEN DopBad(c)
    ELSE IF kk = 0 THEN (IF Len(c.pre) # Len(c.ops) THEN {"completes"} ELSE {})
    ELSE HistBad(c, kk, mm)

INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
