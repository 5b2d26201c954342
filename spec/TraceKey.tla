------------------------------- MODULE TraceKey -------------------------------
(* Keyed signals and analytic elementary signals.                               *)
(* Keying: step k is sample k-1; sym is its symbol, ph its phase (units of 1/D), *)
(* amp its modulus (ask: millionths; else 1).  The model state is the transmitter *)
(* <<symbol held, samples left in the component, phase accumulated (fsk)>>.       *)
EXTENDS GInt, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

Keying == {"ask", "bpsk", "qpsk", "fsk"}
L(c) == IF ~c.defL THEN c.L ELSE IF c.kind = "ask" THEN RoundHalfEven(c.n, 2) ELSE RoundHalfEven(c.n, 5)
Blocks(c) == CeilDiv(c.n, L(c))
Alphabet(c) == CASE c.kind = "bpsk" -> {-1, 1}
                 [] c.kind = "qpsk" -> 0..3
                 [] c.kind = "fsk" -> {2 * j - c.nbf + 1 : j \in 0..(c.nbf - 1)}
D(c) == IF c.kind = "fsk" THEN 8 * c.nbf ELSE c.M
Law(c, s) == 2 * c.nbf + s                              \* fsk frequency, units 1/(8 nbf)

M0(c) == [sym |-> 0, left |-> 0, ph |-> 0]
MNext(c, kk, mm) ==
    IF c.kind \notin Keying THEN mm ELSE
    LET new == mm.left = 0
        s == IF new THEN c.sym[kk] ELSE mm.sym
    IN  [sym |-> s, left |-> (IF new THEN L(c) ELSE mm.left) - 1,
         ph |-> IF c.kind = "fsk" THEN (mm.ph + Law(c, s)) % D(c) ELSE 0]
Steps(c) == IF c.kind \in Keying /\ c.status = "ok" /\ Len(c.sym) = c.n /\ Len(c.ph) = c.n /\ Len(c.amp) = c.n
            THEN c.n ELSE 0

Carrier(c, j) == c.a * (j - 1)                          \* zero at sample 1
Expected(c, j, mm) == CASE c.kind = "ask" -> Carrier(c, j) % D(c)
                        [] c.kind = "bpsk" -> (Carrier(c, j) + (IF mm.sym = 1 THEN 0 ELSE D(c) \div 2)) % D(c)
                        [] c.kind = "qpsk" -> (Carrier(c, j) + mm.sym * (D(c) \div 4)) % D(c)
                        [] c.kind = "fsk" -> mm.ph
KeyBad(c, kk, mm) ==
    (IF c.sym[kk] = mm.sym THEN {} ELSE {"component-length"})
    \cup (IF c.kind = "ask" THEN (IF 0 <= c.sym[kk] /\ c.sym[kk] <= 1000000 THEN {} ELSE {"alphabet"})
          ELSE IF c.sym[kk] \in Alphabet(c) THEN {} ELSE {"alphabet"})
    \cup (IF c.kind = "ask" THEN (IF Abs(c.amp[kk] - c.sym[kk]) <= 1 THEN {} ELSE {"amplitude"})
          ELSE IF c.amp[kk] = 1 THEN {} ELSE {"amplitude"})
    \cup (IF c.ph[kk] = Expected(c, kk - 1, mm) \/ (c.kind = "ask" /\ c.sym[kk] < 100) THEN {} ELSE {"carrier"})

\* every symbol shows up in a long message (missing one has probability < 2^-50)
Used(c) == {c.sym[j] : j \in 1..Len(c.sym)}
Lively(c) == LET B == Blocks(c)
             IN  /\ ((B >= 60 /\ ~(c.kind = "fsk" /\ c.nbf = 1)) => Cardinality(Used(c)) >= 2)
                 /\ (c.kind # "ask" /\ B >= 40 * Cardinality(Alphabet(c)) => Used(c) = Alphabet(c))
                 /\ (c.kind = "ask" => Cardinality(Used(c)) >= B \div 2)
\* in a very long message all symbols are equally frequent, within six standard deviations
Class(c, v) == IF c.kind = "ask" THEN (IF v < 250000 THEN 0 ELSE IF v < 500000 THEN 1 ELSE IF v < 750000 THEN 2 ELSE 3) ELSE v
Even(c) == LET B == Blocks(c)
               A == IF c.kind = "ask" THEN 0..3 ELSE Alphabet(c)
               N == Cardinality(A)
               Count(s) == Cardinality({b \in 0..(B - 1) : Class(c, c.sym[(b * L(c)) + 1]) = s})
               Off(s) == (N * Count(s)) - B
           IN  B >= 1000 => \A s \in A : Off(s) * Off(s) <= 36 * N * B

\* an ensemble of short messages (three components each): at every place all symbols are
\* equally frequent, and so are all pairs of symbols at two places, within six deviations
EnsOk(c) ==
    LET A == CASE c.of = "ask" -> 0..3 [] c.of = "fsk" -> {2 * j - c.nbf + 1 : j \in 0..(c.nbf - 1)}
               [] c.of = "bpsk" -> {-1, 1} [] OTHER -> 0..3
        N == Cardinality(A)
        B == Len(c.msgs)
        Cl(v) == IF c.of = "ask" THEN Class([kind |-> "ask"], v) ELSE v
        C1(p, s) == Cardinality({b \in 1..B : Cl(c.msgs[b][p]) = s})
        C2(p, q, s, t) == Cardinality({b \in 1..B : Cl(c.msgs[b][p]) = s /\ Cl(c.msgs[b][q]) = t})
        Near(cnt, n) == ((n * cnt) - B) * ((n * cnt) - B) <= 36 * n * B
    IN  (IF \A b \in 1..B : Len(c.msgs[b]) = 3 THEN {} ELSE {"length"})
        \cup (IF \A p \in 1..3 : \A s \in A : Near(C1(p, s), N) THEN {} ELSE {"symbols-equally-likely"})
        \cup (IF \A p \in 1..2 : \A s, t \in A : Near(C2(p, p + 1, s, t), N * N) THEN {} ELSE {"symbols-independent"})

\* ---- analytic impulse, step, singularity ---------------------------------------
Ti(c) == IF c.defti THEN 2 * RoundHalfEven(c.n, 2) ELSE c.ti            \* halves
RECURSIVE PowI(_, _)
PowI(b, e) == IF e = 0 THEN 1 ELSE b * PowI(b, e - 1)
SingDist(c, j) == PowI(Abs(2 * j - (IF c.defti THEN c.n ELSE c.ti)), c.h)
SingMax(c) == LET F(j) == SingDist(c, j) IN MaxOf(F, 0, c.n - 1)
Real(c, j) == CASE c.kind = "pulse" -> IF 2 * j = Ti(c) THEN 1 ELSE 0
                [] c.kind = "step" -> IF 2 * j > Ti(c) THEN 1 ELSE 0
                [] c.kind = "sing" -> SingMax(c) - SingDist(c, j)          \* times 2^h
\* Lipschitz exponent h/4 <= 0, even length: bin k of the real part is k^(-1-h/4) times a delay of t0 - 1
SpecBad(c) ==
    LET t == (IF c.defti THEN c.n ELSE c.ti) - 2                         \* halves
        M == c.n \div 2 - 1
    IN  (IF Len(c.sph) = M /\ \A j \in 1..M : (c.sph[j] + (j * t)) % (2 * c.n) = 0 THEN {} ELSE {"delay"})
        \cup (IF \A j \in 1..Min(M, 40) : c.mag4[j] = PowI(j, 4 + c.h) THEN {} ELSE {"decay"})
        \cup (IF Abs(c.low6) <= 1 /\ Abs(c.top6 - 1000000) <= 2 THEN {} ELSE {"normalised"})
AnaBad(c) ==
    (IF Len(c.re) # c.n THEN {"length"}
     ELSE IF c.kind = "singneg" THEN (IF c.n % 2 = 0 THEN SpecBad(c) ELSE {})
     ELSE IF \E j \in 0..(c.n - 1) : c.re[j + 1] # Real(c, j) THEN {"real-part"} ELSE {})
    \cup (IF c.neg = 0 THEN {} ELSE {"negative-frequencies"})

Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF c.kind = "ens" THEN EnsOk(c)
    ELSE IF c.kind \notin Keying THEN AnaBad(c)
    ELSE IF kk = 0
    THEN (IF Len(c.sym) # c.n \/ Len(c.ph) # c.n THEN {"length"} ELSE
          (IF Lively(c) THEN {} ELSE {"symbols-vary"})
          \cup (IF Even(c) THEN {} ELSE {"symbols-equally-likely"})
          \cup (IF c.usedD # D(c) THEN {"decoder"} ELSE {}))
    ELSE KeyBad(c, kk, mm)

INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
