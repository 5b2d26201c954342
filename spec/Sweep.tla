-------------------------------- MODULE Sweep --------------------------------
(* How a fixed-grid distribution is computed: a sweep over columns, and in    *)
(* each column over the admissible lags, every lag writing its product into   *)
(* row "lag mod n".  TLC checks, for every small configuration and signal,    *)
(* that the sweep stays inside the signal and the window, never lets two lags *)
(* overwrite each other, and ends with exactly the declarative kernel column  *)
(* of Kernels -- and that the kernels have the properties users rely on       *)
(* (Hermitian symmetry, hence real distributions; time marginals; support).   *)
EXTENDS Kernels, TLC, Json

CONSTANTS Kinds,   \* subset of {"stft","wv","pwv","pmh","ppage","page","mh"}
          MaxN, MaxF, Vals, Emit

V2 == {<<1, 0>>, <<1, -2>>}
V3 == {<<0, 0>>, <<1, 0>>, <<1, -2>>}
V1 == {<<1, 1>>}

VARIABLES cfg,     \* configuration record of Kernels
          t,       \* current column
          tau,     \* next lag to write
          col,     \* row -> value, the column being filled
          wr,      \* row -> number of writes so far
          read,    \* samples read at the last write, as signal indices
          done

vars == <<cfg, t, tau, col, wr, read, done>>

\* an asymmetric complex window, so that no index mix-up can hide
Win(L) == [j \in 1..L |-> <<j, (j % 3) - 1>>]

Cfgs == UNION {{[kind |-> kd, N |-> N, n |-> n, w |-> Win(wl), x |-> x] :
           kd \in Kinds, n \in 1..MaxF, wl \in 1..MaxF, x \in [1..N -> Vals]} : N \in 1..MaxN}
Admissible(c) ==
    /\ c.kind \in {"wv", "mh", "page"} => Len(c.w) = 1
    /\ c.kind = "stft" => Len(c.w) <= c.n

\* lag interval of a column, as loops would bound it
Lo(c, s) ==
    CASE c.kind = "stft" -> -Min(Half(c), s)
      [] c.kind = "wv"   -> -Min(Min(s, c.N - 1 - s), (c.n - 1) \div 2)
      [] c.kind = "pwv"  -> -Min(Min(Min(s, c.N - 1 - s), (c.n - 1) \div 2), Half(c))
      [] c.kind = "pmh"  -> -Min(Min(c.N - 1 - s, (c.n - 1) \div 2), Half(c))
      [] c.kind \in {"ppage", "page"} -> 0
      [] c.kind = "mh"   -> s - (Min(c.n, c.N) - 1)
Hi(c, s) ==
    CASE c.kind = "stft" -> Min(Half(c), c.N - 1 - s)
      [] c.kind = "wv"   -> Min(Min(s, c.N - 1 - s), (c.n - 1) \div 2)
      [] c.kind = "pwv"  -> Min(Min(Min(s, c.N - 1 - s), (c.n - 1) \div 2), Half(c))
      [] c.kind = "pmh"  -> Min(Min(s, (c.n - 1) \div 2), Half(c))
      [] c.kind = "ppage" -> Min(Min(c.n - 1, Half(c)), s)
      [] c.kind = "page" -> Min(c.n - 1, s)
      [] c.kind = "mh"   -> s

Partner(c, s, l) == CASE c.kind = "stft" -> {s + l}
                      [] c.kind \in {"wv", "pwv"} -> {s + l, s - l}
                      [] OTHER -> {s, s - l}
Value(c, s, l) == IF c.kind = "mh" THEN Scl(2, Mul(X(c, s), Conj(X(c, s - l)))) ELSE Lag(c, s, l)

Zero(c) == [r \in 0..(c.n - 1) |-> Z]
None(c) == [r \in 0..(c.n - 1) |-> 0]

Init == /\ cfg \in {c \in Cfgs : Admissible(c)}
        /\ t = 0 /\ tau = Lo(cfg, 0) /\ col = Zero(cfg) /\ wr = None(cfg) /\ read = {} /\ done = FALSE
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson([kind |-> cfg.kind, N |-> cfg.N, n |-> cfg.n, wl |-> Len(cfg.w)])>>)
           ELSE TRUE

Write == /\ ~done /\ tau <= Hi(cfg, t)
         /\ LET r == (cfg.n + tau) % cfg.n
            IN  /\ col' = [col EXCEPT ![r] = Value(cfg, t, tau)]
                /\ wr' = [wr EXCEPT ![r] = @ + 1]
         /\ read' = Partner(cfg, t, tau)
         /\ tau' = tau + 1
         /\ UNCHANGED <<cfg, t, done>>

\* the Nyquist lag of an even-sized DFT is shared by +n/2 and -n/2
Nyq == cfg.n \div 2
NyqOn == /\ cfg.kind \in {"wv", "pwv"} /\ cfg.n % 2 = 0 /\ BothIn(cfg, t, Nyq)
         /\ (cfg.kind = "pwv" => Nyq <= Half(cfg))
Nyquist == /\ ~done /\ tau = Hi(cfg, t) + 1 /\ wr[Nyq % cfg.n] = 0 /\ NyqOn
           /\ col' = [col EXCEPT ![Nyq] = Add(Lag(cfg, t, Nyq), Lag(cfg, t, -Nyq))]
           /\ wr' = [wr EXCEPT ![Nyq] = @ + 1]
           /\ read' = {t + Nyq, t - Nyq}
           /\ UNCHANGED <<cfg, t, tau, done>>

ColumnDone == ~done /\ tau > Hi(cfg, t) /\ (NyqOn => wr[Nyq] > 0)
NextCol == /\ ColumnDone
           /\ IF t + 1 < cfg.N
              THEN /\ t' = t + 1 /\ tau' = Lo(cfg, t + 1) /\ col' = Zero(cfg) /\ wr' = None(cfg)
                   /\ read' = {} /\ done' = FALSE
              ELSE done' = TRUE /\ UNCHANGED <<t, tau, col, wr, read>>
           /\ UNCHANGED cfg

Next == Write \/ Nyquist \/ NextCol
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ------------------------------------------------------------- properties --
ReadsInside == \A s \in read : InSig(cfg, s)
SingleWriter == \A r \in 0..(cfg.n - 1) : wr[r] <= 1
Refines == ColumnDone => \A r \in 0..(cfg.n - 1) : col[r] = Row(cfg, t, r)
Hermitian == cfg.kind = "wv" => \A r \in 0..(cfg.n - 1) : Row(cfg, t, (cfg.n - r) % cfg.n) = Conj(Row(cfg, t, r))
TimeMarginal == cfg.kind \in {"wv", "mh"} =>
                   (t < cfg.n => Cell(cfg, t, 0) = <<4 * Sq(X(cfg, t)), 0>>)
ReflectWV == \* time reversal and conjugation leave the Wigner-Ville kernel in place
    cfg.kind = "wv" =>
      LET y == [cfg EXCEPT !.x = [j \in 1..cfg.N |-> Conj(cfg.x[cfg.N + 1 - j])]]
      IN  \A r \in 0..(cfg.n - 1) : Row(y, cfg.N - 1 - t, r) = Row(cfg, t, r)
Causal == cfg.kind \in {"ppage", "page"} => \A s \in read : s <= t
\* the pseudo Page kernel under a long window of ones is the Page kernel
Unwindowed == cfg.kind = "page" => \A r \in 0..(cfg.n - 1) :
                 Row([cfg EXCEPT !.kind = "ppage", !.w = [j \in 1..(2 * cfg.n + 1) |-> <<1, 0>>]], t, r) = Row(cfg, t, r)
Terminates == <>done
=============================================================================
