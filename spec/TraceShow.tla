------------------------------- MODULE TraceShow -------------------------------
(* Plotting a representation: a sequence of plot() calls on one object.             *)
(*   mat        the matrix run() returned, rows of (re, im) pairs, scaled integers    *)
(*   ops[k]     kind, whether axes were given (ax), show, the side panels (tf),        *)
(*              annotations (ann), threshold p/q, sq (is the modulus squared)          *)
(*   obs[k]     figures created, calls of show(), what was drawn (Z, on the given       *)
(*              axes or not), the extent, the labels, the object's state afterwards      *)
(* tol is 0 where every number is an exact integer, else the fixed-point error.          *)
EXTENDS GInt, Tables, TLC, Json, IOUtils
VARIABLES i, k, m, nbad
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
Half(fam) == fam \in {"stft", "spec", "mh", "page"}
Rows(c) == IF Half(c.fam) THEN Len(c.mat) \div 2 ELSE Len(c.mat)
Cols(c) == Len(c.mat[1]) \div 2
\* is the modulus squared for display?
Squared(fam, op) == CASE fam = "stft" -> TRUE [] fam \in {"spec", "aff"} -> FALSE
                      [] OTHER -> op.sq
Val(c, op, r, q) == LET a == c.mat[r][2 * q - 1] b == c.mat[r][2 * q]
                    IN  IF Squared(c.fam, op) THEN a * a + b * b
                        ELSE IF c.fam = "wv" THEN Abs(a) ELSE a
Tol(c, op) == IF c.tol = 0 THEN 0 ELSE IF Squared(c.fam, op) THEN 9000 ELSE 2
\* the largest displayed value
RECURSIVE MaxRow(_, _, _, _)
MaxRow(c, op, r, q) == IF q = 1 THEN Val(c, op, r, 1) ELSE Max(Val(c, op, r, q), MaxRow(c, op, r, q - 1))
RECURSIVE MaxMat(_, _, _)
MaxMat(c, op, r) == IF r = 1 THEN MaxRow(c, op, 1, Cols(c)) ELSE Max(MaxRow(c, op, r, Cols(c)), MaxMat(c, op, r - 1))
Solid(kind) == kind \in {"surf", "wireframe"}
Near(a, b, t) == Abs(a - b) <= t
Shown(c, op, mx, r, q, z) ==
    LET v == Val(c, op, r, q)
        d == op.q * v - op.p * mx
        t == Tol(c, op)
        w == IF Solid(op.kind) THEN Abs(v) ELSE v
        \* a modulus is a rounded square root: exact ties are decided only for real matrices
        tie == Squared(c.fam, op) /\ ~c.real
    IN  \/ d >= 0 - (op.p + op.q) * t /\ (t > 0 \/ d > 0 \/ tie) /\ Near(z, w, t)
        \/ d <= (op.p + op.q) * t /\ z = 0
Picture(c, op, o) ==
    LET mx == MaxMat(c, op, Rows(c))
    IN  /\ Len(o.z) = Rows(c) /\ (\A r \in 1..Rows(c) : Len(o.z[r]) = Cols(c))
        /\ \A r \in 1..Rows(c) : \A q \in 1..Cols(c) : Shown(c, op, mx, r, q, o.z[r][q])
\* frequency extent, millionths: bottom and top
FreqOk(c, lo, hi) ==
    LET n == Len(c.mat)
    IN  CASE c.fam \in {"stft", "spec", "page"} -> lo = 0 /\ Near(n * hi, 1000000 * (Rows(c) - 1), 2 * n)
          [] c.fam = "mh" -> lo = 0 /\ hi = 500000
          [] c.fam = "wv" -> lo = 0 /\ Near(2 * n * hi, 1000000 * (n - 1), 4 * n)
          [] c.fam = "aff" -> Near(lo, c.f[1], 2) /\ Near(hi, c.f[2], 2)
\* contours and solids: columns at the instants (solids: numbered), rows over 0 .. 0.5, or at the voices
GridOk(c, op, o) ==
    /\ o.xs = (IF op.grid THEN [q \in 1..Cols(c) |-> 8 * (q - 1) + 4]
                ELSE IF op.kind = "contour" THEN c.tcol ELSE [q \in 1..Cols(c) |-> 4 * (q - 1)])
    /\ Len(o.ys) = Rows(c)
    /\ IF op.grid THEN \A r \in 1..Rows(c) : o.ys[r] = 125000 * (r - 1)
       ELSE IF c.fam = "aff" THEN \A r \in 1..Rows(c) : Near(o.ys[r], c.fs[r], 1)
       ELSE \A r \in 1..Rows(c) : Near(o.ys[r] * (Rows(c) - 1), 500000 * (r - 1), Rows(c))
\* contour levels, normalised by the last one to 30000: those given; 65 in geometric progression from the
\* threshold (or the smallest value) to the largest value shown (logarithmic scale); 65 evenly spaced ones beside
\* the panels of the affine family; otherwise the drawing library's own
RECURSIVE MinRow(_, _, _, _)
MinRow(c, op, r, q) == IF q = 1 THEN Val(c, op, r, 1) ELSE Min(Val(c, op, r, q), MinRow(c, op, r, q - 1))
RECURSIVE MinMat(_, _, _)
MinMat(c, op, r) == IF r = 1 THEN MinRow(c, op, 1, Cols(c)) ELSE Min(MinRow(c, op, r, Cols(c)), MinMat(c, op, r - 1))
FromTo(c, op, o, mx) ==
    LET mn == MinMat(c, op, Rows(c))
        b == o.lv[1]
        d == (mx \div 3000) + 1
    IN  /\ Len(o.lv) = 65 /\ o.lv[65] = 30000 /\ Near(o.top, mx, Tol(c, op) + 1)
        /\ \/ Near(op.q * b, 30000 * op.p, 2 * op.q) /\ op.q * mn <= op.p * mx + (op.p + op.q) * Tol(c, op)
           \/ Near(b, (30000 * (mn \div d)) \div Max(1, mx \div d), 80) /\ op.q * mn >= op.p * mx - (op.p + op.q) * Tol(c, op)
Given == <<2, 5, 11, 20, 25>>
LevelsOk(c, op, o, mx) ==
    CASE op.lv = "given" -> /\ Len(o.lv) = Len(Given) /\ Near(o.top, mx, Tol(c, op) + 1)
                            /\ \A j \in 1..Len(Given) : Near(25 * o.lv[j], 30000 * Given[j], 25)
      [] op.lv = "log" -> /\ FromTo(c, op, o, mx)
                          /\ \A j \in 2..64 : Near(o.lv[j - 1] * o.lv[j + 1], o.lv[j] * o.lv[j], 3 * o.lv[j] + 5)
      [] op.lv = "none" /\ c.fam = "aff" /\ op.tf ->
              FromTo(c, op, o, mx) /\ \A j \in 1..65 : Near(64 * o.lv[j], (65 - j) * o.lv[1] + (j - 1) * 30000, 130)
      [] OTHER -> o.lv = <<>>
\* the spectrum panel: squared modulus of the signal's transform at its positive frequencies, highest first
SLen(c) == Len(c.cx)
Rnd(v, d) == (2 * v + d) \div (2 * d)
Pow(c, kb) ==
    LET st == 720 \div SLen(c)
        F(t) == LET j == ((kb * t) % SLen(c)) * st
                IN  Mul(c.cx[t + 1], <<Rnd(CosAt(j), 1000), -Rnd(SinAt(j), 1000)>>)
        v == GSum(F, 0, SLen(c) - 1)
    IN  <<Rnd(v[1], 10), Rnd(v[2], 10)>>
SpectrumOk(c, o) ==
    LET n == SLen(c)
        p == TLCEval([j \in 1..(n \div 2) |-> Pow(c, ((n - 1) \div 2) - (j - 1))])
    IN  (720 % n = 0 /\ n >= 4) =>
        \E l \in 1..Len(o.specs) :
           /\ Len(o.specs[l]) = n \div 2
           /\ \A j \in 1..(n \div 2) : Near(o.specs[l][j], Sq(p[j]), 10 * (Abs(p[j][1]) + Abs(p[j][2])) + 100)
\* affine panels: voices evenly spread over 0 .. 0.5, limited to the band
APow(c, kb) ==
    LET nv == Len(c.mat)
        F(t) == LET j == ((kb * t) % (2 * nv)) * (360 \div nv)
                IN  Mul(c.cx[t + 1], <<Rnd(CosAt(j), 1000), -Rnd(SinAt(j), 1000)>>)
        v == GSum(F, 0, SLen(c) - 1)
    IN  <<Rnd(v[1], 100), Rnd(v[2], 100)>>
AffSpectrumOk(c, o) ==
    LET nv == Len(c.mat)
        p == TLCEval([j \in 1..nv |-> APow(c, j - 1)])
    IN  /\ Len(o.specs) = 1 /\ Len(o.specs[1]) = nv
        /\ \A j \in 1..nv : Near(o.specs[1][j], Sq(p[j]), 6 * (Abs(p[j][1]) + Abs(p[j][2])) + 50)
        /\ Near(o.lim[1], c.f[1], 1) /\ Near(o.lim[2], c.f[2], 1)
NeedsFigure(op) == op.tf \/ Solid(op.kind) \/ ~op.ax
M0(c) == [figs |-> 0, shows |-> 0]
MNext(c, kk, mm) == LET op == c.ops[kk]
    IN  [figs |-> mm.figs + (IF NeedsFigure(op) THEN 1 ELSE 0), shows |-> mm.shows + (IF op.show THEN 1 ELSE 0)]
Steps(c) == IF c.status = "ok" THEN Len(c.ops) ELSE 0
Judge(c, kk, mm) ==
    IF c.status # "ok" THEN {"completes"}
    ELSE IF kk = 0 THEN {}
    ELSE LET op == c.ops[kk] o == c.obs[kk]
         IN  IF o.err # "" THEN {"drawn"} ELSE
             (IF o.figs # mm.figs THEN {"figures"} ELSE {})
             \cup (IF o.shows # mm.shows THEN {"shown-on-request"} ELSE {})
             \cup (IF o.drew # 1 \/ o.kind # op.kind THEN {"drawn"} ELSE {})
             \cup (IF o.drew = 1 /\ (o.given # (~NeedsFigure(op))) THEN {"axes"} ELSE {})
             \cup (IF o.drew = 1 /\ ~Picture(c, op, o) THEN {"picture"} ELSE {})
             \cup (IF o.same # 1 THEN {"object-unchanged"} ELSE {})
             \cup (IF o.drew = 1 /\ op.kind = "cmap" /\ ~(o.ext[1] = c.ts[1] /\ o.ext[2] = c.ts[2]) THEN {"time-extent"} ELSE {})
             \cup (IF o.drew = 1 /\ op.kind = "cmap" /\ ~(FreqOk(c, o.ext[3], o.ext[4]) /\ o.lower = 1) THEN {"frequency-extent"} ELSE {})
             \cup (IF o.drew = 1 /\ op.kind = "contour" /\ ~op.grid /\ ~(o.ext[1] = c.ts[1] /\ o.ext[2] = c.ts[2]) THEN {"time-extent"} ELSE {})
             \cup (IF op.ann /\ o.lab # <<"Time", "Normalized Frequency", c.title>> THEN {"labels"} ELSE {})
             \cup (IF ~op.ann /\ o.lab # <<"", "", "">> THEN {"labels"} ELSE {})
             \cup (IF op.tf /\ ~(\E l \in 1..Len(o.lines) : o.lines[l] = c.sig) THEN {"signal-panel"} ELSE {})
             \cup (IF o.drew = 1 /\ op.kind # "cmap" /\ ~GridOk(c, op, o) THEN {"grid"} ELSE {})
             \cup (IF o.drew = 1 /\ op.kind = "contour" /\ ~LevelsOk(c, op, o, MaxMat(c, op, Rows(c))) THEN {"levels"} ELSE {})
             \cup (IF op.tf /\ ~(IF c.fam = "aff" THEN AffSpectrumOk(c, o) ELSE SpectrumOk(c, o)) THEN {"spectrum-panel"} ELSE {})
INSTANCE Engine
Spec == EInit /\ [][ENext]_evars
=============================================================================
