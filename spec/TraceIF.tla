------------------------------- MODULE TraceIF -------------------------------
(* Instantaneous frequency and group delay.                                       *)
(*  if: the signal's phases are ph[j] / M turns; step k is requested instant t[k], *)
(*      observed 2 M f.  The model state is the oscillator's phase advance over     *)
(*      the last two samples.                                                       *)
(*  gd: step k is one frequency q/4 of a turn at which the transforms D of x and N   *)
(*      of (j+1) x[j] are Gaussian integers; observed gd |D|^2 (p/4 multiples), or   *)
(*      -1 where the specification must not be asked (D = 0).                        *)
(*  pulse: one impulse; every observed delay is its position, counted from one.      *)
(*  twin: two equal impulses at any frequency where they do not cancel: half way.     *)
EXTENDS GInt, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
N(c) == Len(c.v)
Rot(a, q) == CASE q % 4 = 0 -> a [] q % 4 = 1 -> <<a[2], -a[1]>>
               [] q % 4 = 2 -> <<-a[1], -a[2]>> [] q % 4 = 3 -> <<-a[2], a[1]>>
DD(c, q) == LET f(j) == Rot(c.v[j], q * (j - 1)) IN GSum(f, 1, N(c))
NN(c, q) == LET f(j) == Scl(j, Rot(c.v[j], q * (j - 1))) IN GSum(f, 1, N(c))
\* gd |D|^2: Re(N conj D), or zero when the ratio is outside [1, N + 3]
GdOk(c, q, o) ==
    LET d == DD(c, q) r == Mul(NN(c, q), Conj(d))[1] s == Sq(d) n == N(c)
    IN  IF r = s \/ r = (n + 3) * s THEN o \in {r, 0}          \* on the edge: rounding decides
        ELSE IF r < s \/ r > (n + 3) * s THEN o = 0 ELSE o = r
GdEdgeExact(c, q, o) == LET d == DD(c, q) IN c.exact /\ NN(c, q) = d => o = Sq(d)
GdBad(c, kk) ==
    LET q == c.at[kk] d == DD(c, q)
    IN  IF d = Z THEN {}
        ELSE IF c.s2[kk] # Sq(d) THEN {"decoder"}
        ELSE IF GdOk(c, q, c.obs[kk]) /\ GdEdgeExact(c, q, c.obs[kk]) THEN {} ELSE {"delay"}
IfBad(c, kk, mm) ==
    (IF c.tt[kk] = c.t[kk] THEN {} ELSE {"instants"})
    \cup (IF c.obs[kk] \in 0..c.M /\ (c.obs[kk] - mm) % c.M = 0 THEN {} ELSE {"frequency"})
PulseBad(c, kk) == IF c.obs[kk] = c.want THEN {} ELSE {"delay"}

Asked(c) == IF c.kind # "if" THEN Len(c.obs) ELSE Len(c.t)
M0(c) == 0
MNext(c, kk, mm) == IF c.kind = "if" THEN (c.ph[c.t[kk] + 1] - c.ph[c.t[kk] - 1]) % c.M ELSE 0
Steps(c) == IF c.status = "ok" /\ Len(c.obs) = Asked(c) /\ (c.kind # "if" \/ Len(c.tt) = Asked(c)) THEN Asked(c) ELSE 0
DefaultT(c) == [j \in 1..(c.n - 2) |-> j + 1]
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF kk = 0 THEN
        (IF Len(c.obs) # Asked(c) \/ (c.kind = "if" /\ Len(c.tt) # Asked(c)) \/ (c.kind # "if" /\ c.len # c.lenwant)
         THEN {"length"} ELSE {})
        \cup (IF c.kind = "if" /\ c.deft /\ c.t # DefaultT(c) THEN {"default-instants"} ELSE {})
    ELSE CASE c.kind = "if" -> IfBad(c, kk, mm)
           [] c.kind = "gd" -> GdBad(c, kk)
           [] OTHER -> PulseBad(c, kk)
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
