------------------------------- MODULE TraceFM -------------------------------
(* Frequency-modulated generators.  Step k is sample k-1: its modulus, its      *)
(* phase and the returned instantaneous frequency.                               *)
(*  exact kinds (const, lin, any, par): phase in units of 1/D turn, frequency in *)
(*    units of 1/F, all integers; the model state m is the phase the             *)
(*    specification's oscillator has reached.                                    *)
(*  tabulated kinds (hyp, power, sin): phase and frequency in units of 10^-6,    *)
(*    compared within c.tol with the closed form evaluated on Tables.            *)
EXTENDS GInt, Tables, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

Exact(c) == c.kind \in {"const", "lin", "any", "par"}
T0(c) == IF c.deft0 THEN RoundHalfEven(c.n, 2) ELSE c.t0      \* numerator over c.q

\* ---- exact kinds --------------------------------------------------------------
\* units: D turns for the phase, F for the law
D(c) == CASE c.kind = "const" -> c.M * c.q
          [] c.kind = "lin" -> 2 * c.M * (c.n - 1)
          [] c.kind = "any" -> c.M
          [] c.kind = "par" -> 6 * c.M
F(c) == CASE c.kind = "lin" -> c.M * (c.n - 1) [] OTHER -> c.M
\* law at sample j = 0..n-1, in units of 1/F
Law(c, j) == CASE c.kind = "const" -> c.a
               [] c.kind = "lin" -> c.a * (c.n - 1) + (c.b - c.a) * j
               [] c.kind = "any" -> c.law[j + 1]
               [] c.kind = "par" -> c.a + c.b * j + c.d * j * j
\* phase advance from sample j-1 to sample j, in units of 1/D
Advance(c, j) == CASE c.kind = "const" -> c.a * c.q
                   [] c.kind = "lin" -> Law(c, j - 1) + Law(c, j)          \* trapezoid, exact for a line
                   [] c.kind = "any" -> Law(c, j)                          \* running sum
                   [] c.kind = "par" -> 6 * c.a + 3 * c.b * (2 * j - 1) + 2 * c.d * (3 * j * j - 3 * j + 1)
\* phase of sample 0
RECURSIVE Back(_, _)
Back(c, j) == IF j = 0 THEN 0 ELSE (Advance(c, j) + Back(c, j - 1)) % D(c)
Start(c) == CASE c.kind = "const" -> (-(c.a * (IF c.deft0 THEN c.q * RoundHalfEven(c.n, 2) ELSE c.t0))) % D(c)
              [] c.kind = "lin" -> (-Back(c, T0(c) - 1)) % D(c)
              [] c.kind = "any" -> (-Back(c, c.t0 - 1)) % D(c)
              [] c.kind = "par" -> 0

M0(c) == IF Exact(c) /\ c.n > 0 THEN Start(c) ELSE 0
MNext(c, kk, mm) == IF ~Exact(c) THEN 0 ELSE IF kk = 1 THEN mm ELSE (mm + Advance(c, kk - 1)) % D(c)
Steps(c) == IF c.status = "ok" /\ Len(c.phase) = c.n /\ Len(c.iflaw) = c.n /\ Len(c.mod) = c.n THEN c.n ELSE 0

\* ---- tabulated kinds ----------------------------------------------------------
\* hyp, power: law a/1000 + (b/8) t^-k at t = 1..n; phase in millionths of a turn
U == 1000000
Wrap(v) == LET r == v % U IN IF 2 * r > U THEN r - U ELSE r
TabPhase(c, t) ==
    CASE c.kind = "hyp"                     -> 1000 * c.a * t + c.b * LnT[t]
      [] c.kind = "power" /\ c.pow = 4      -> 1000 * c.a * t - ((c.b * 125000) \div t)               \* k = 2
      [] c.kind = "power" /\ c.pow = 6      -> 1000 * c.a * t - ((c.b * 62500) \div (t * t))          \* k = 3
      [] c.kind = "power" /\ c.pow = 1      -> 1000 * c.a * t + 2 * c.b * SqrtT[t]                    \* k = 1/2
      [] c.kind = "power" /\ c.pow = -2     -> 1000 * c.a * t + c.b * 62500 * ((t * t) % 16)          \* k = -1
      [] c.kind = "power" /\ c.pow = 0      -> 1000 * c.a * t + c.b * 125000 * (t % 8)                \* k = 0
TabLaw(c, t) ==
    CASE c.kind = "hyp"                     -> 1000 * c.a + ((c.b * 125000) \div t)
      [] c.kind = "power" /\ c.pow = 4      -> 1000 * c.a + ((c.b * 125000) \div (t * t))
      [] c.kind = "power" /\ c.pow = 6      -> 1000 * c.a + ((c.b * 125000) \div (t * t * t))
      [] c.kind = "power" /\ c.pow = 1      -> 1000 * c.a + ((c.b * SqrtT[t]) \div t)
      [] c.kind = "power" /\ c.pow = -2     -> 1000 * c.a + c.b * 125000 * t
      [] c.kind = "power" /\ c.pow = 0      -> 1000 * c.a + c.b * 125000
\* sin: mid a/1000, half-width b/1000, period 720 / K (whole or not), angle at the
\* reference instant -pm * j0 (in 720ths); t0 in halves
SinT0(c) == IF c.deft0 THEN c.n ELSE c.t0
SinIdx(c, j) == ((c.K * (2 * j - SinT0(c))) \div 2) - c.pm * c.j0
ScaledSin(c, v) == LET dn == 720 * c.b
                      dp == dn \div c.K
                  IN  (dp \div 1000) * v + (((dp % 1000) * v) \div 1000) + (((dn % c.K) * v) \div (1000 * c.K))
SinPhase(c, j) == 500 * c.a * (2 * j - SinT0(c))
                  + ScaledSin(c, SinTurnAt(SinIdx(c, j)) - SinTurnAt(-(c.pm * c.j0)))
SinLaw(c, j) == 1000 * c.a + ((c.b * CosAt(SinIdx(c, j))) \div 1000)

ModBad(c, kk) == IF c.mod[kk] = 1 THEN {} ELSE {"unit-modulus"}
ExactBad(c, kk, mm) ==
    (IF c.phase[kk] = mm THEN {} ELSE {"phase"})
    \cup (IF c.kind = "any" \/ c.iflaw[kk] = Law(c, kk - 1) THEN {} ELSE {"law"})
TabBad(c, kk) ==
    LET ph == IF c.kind = "sin" THEN SinPhase(c, kk - 1) ELSE TabPhase(c, kk)
        lw == IF c.kind = "sin" THEN SinLaw(c, kk - 1) ELSE TabLaw(c, kk)
    IN  (IF Abs(Wrap(c.phase[kk] - ph)) <= c.tol THEN {} ELSE {"phase"})
        \cup (IF Abs(c.iflaw[kk] - lw) <= c.ltol THEN {} ELSE {"law"})

\* A parabolic, hyperbolic or power law which leaves [0, 1/2] anywhere draws a warning, one which stays inside
\* draws none.  Left open: values on a limit to within rounding (exactly representable at the first sample of a
\* parabola, hence decided there).
Outside(c, t) == IF c.kind = "par" THEN Law(c, t - 1) < 0 \/ 2 * Law(c, t - 1) > F(c)
                 ELSE TabLaw(c, t) < -c.ltol \/ TabLaw(c, t) > 500000 + c.ltol
Inside(c, t) == IF c.kind = "par" THEN IF t = 1 THEN ~Outside(c, 1) ELSE Law(c, t - 1) > 0 /\ 2 * Law(c, t - 1) < F(c)
                ELSE IF c.b = 0 THEN c.a \in 0..500          \* a constant law is not rounded
                ELSE TabLaw(c, t) > c.ltol /\ TabLaw(c, t) < 500000 - c.ltol
Warns(c) == c.kind \in {"par", "hyp", "power"}
WarnBad(c) == IF ~Warns(c) THEN {}
              ELSE IF c.warned = 0 /\ \E t \in 1..c.n : Outside(c, t) THEN {"aliasing-warning"}
              ELSE IF c.warned > 0 /\ \A t \in 1..c.n : Inside(c, t) THEN {"needless-warning"}
              ELSE {}

Judge(c, kk, mm) ==
    IF kk = 0
    THEN (IF c.status # "ok" THEN {"completes"} ELSE
          (IF Len(c.phase) # c.n THEN {"length"} ELSE {})
          \cup (IF Len(c.iflaw) # c.n THEN {"law-length"} ELSE {})
          \cup (IF Exact(c) /\ (c.usedD # D(c) \/ c.usedF # F(c)) THEN {"decoder"} ELSE {})
          \cup WarnBad(c))
    ELSE ModBad(c, kk) \cup (IF Exact(c) THEN ExactBad(c, kk, mm) ELSE TabBad(c, kk))

INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
