-------------------------------- MODULE Guards --------------------------------
(* The contract of every validated call: its parameters p (integers; frequencies,    *)
(* rates and distances in units of 1e-9), the ordered guards it must pass, and the     *)
(* shape of what it returns.  Verdict is "refuse" when some guard is violated,          *)
(* "open" where the documentation says nothing, else "accept".                           *)
EXTENDS Integers, Sequences, FiniteSets
Half == 500000000
Ab(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
AM == {"amgauss", "amexpos", "amrect", "amtriang"}
Keyed == {"anaask", "anabpsk", "anaqpsk"}
EvenWin == {"re:spectrogram", "re:pseudo_wigner_ville", "re:pseudo_margenau_hill", "re:pseudo_page", "re:spwv-f", "re:spwv-t",
            "spwv-f", "spwv-t"}
Instants == {"at:spectrogram", "at:spwv", "at:morlet"}
Vectors == {"loctime", "locfreq", "inst_freq", "inst_freq-t", "group_delay", "wide_band"}
Functions == AM \cup Keyed \cup EvenWin \cup Instants \cup Vectors \cup
    {"fmconst", "fmlin", "fmodany", "noisecg", "doppler", "klauder", "mexhat", "gdpower", "sigmerge", "renyi", "ridges", "gabor-window"}
\* the guards of f in order: TRUE when the guard is respected
Guard(f, p) ==
    CASE f \in AM -> << p[1] > 0 >>
      [] f = "noisecg" -> << p[1] > 0 >>
      [] f = "fmconst" -> << p[1] > 0, Ab(p[2]) <= Half >>
      [] f = "fmlin" -> << p[1] > 0, Ab(p[2]) <= Half, Ab(p[3]) <= Half >>
      \* rows, columns (0: a vector), extreme value of the law, twice the reference instant
      [] f = "fmodany" -> << p[2] <= 1, Ab(p[3]) <= Half, p[4] <= 2 * p[1], p[4] >= 2 >>
      [] f \in Keyed -> << p[2] >= 0, p[2] <= Half >>
      \* n, twice t0, f0 / s_freq, distance, speed, sampling frequency
      [] f = "doppler" -> << p[4] > 0, p[6] >= 0, p[2] >= 2, p[2] <= 2 * p[1], p[3] >= 0, p[3] <= Half, p[5] >= 0 >>
      [] f = "klauder" -> << p[1] > 0, p[2] < Half, p[2] > 0 >>
      [] f = "mexhat" -> << p[1] <= Half, p[1] >= 0 >>
      [] f = "gdpower" -> << p[3] # 0 >>
      \* dimensions of the two signals, kind of the ratio (0 int, 1 float, 2 text, 3 nothing, 4 complex)
      [] f = "sigmerge" -> << p[1] = 1, p[2] = 1, p[3] < 2 >>
      [] f \in EvenWin -> << p[1] % 2 = 1 >>
      [] f = "gabor-window" -> << p[1] % 2 = 1 >>
      \* first instant and the three steps that follow
      [] f \in Instants -> << p[2] = p[3] /\ p[3] = p[4] >>
      [] f \in Vectors -> << p[1] = 1 \/ p[2] <= 1 >>
      \* order, smallest value
      [] f = "renyi" -> << p[1] # 1 \/ p[2] >= 0 >>
      [] f = "ridges" -> << p[1] < 10 >>
Open(f, p) ==
    CASE f = "fmlin" -> p[1] = 1
      [] f \in Keyed -> p[1] < 3
      [] f = "klauder" -> p[1] = 1
      [] f = "mexhat" -> p[1] = 0
      [] f = "gdpower" -> p[1] < 4
      [] f = "doppler" -> p[6] = 0
      [] f \in EvenWin \ {"spwv-f", "spwv-t"} -> p[1] = 1
      [] f = "inst_freq" -> p[1] * Max2(p[2], 1) < 3
      [] f \in Instants -> p[2] <= 0
      [] OTHER -> FALSE
Verdict(f, p) == IF \E j \in 1..Len(Guard(f, p)) : ~Guard(f, p)[j] THEN "refuse"
                 ELSE IF Open(f, p) THEN "open" ELSE "accept"
CeilDiv(a, b) == (a + b - 1) \div b
\* the documented shapes of the results (<<>> is a number); signals of the window,
\* instant and vector cases have 24, 24 and Max(rows, cols) samples
Size(p) == IF p[2] = 0 THEN p[1] ELSE p[1] * p[2]
Shapes(f, p) ==
    CASE f \in AM \cup {"noisecg", "klauder"} -> << <<p[1]>> >>
      [] f \in {"fmconst", "fmlin", "anaask"} -> << <<p[1]>>, <<p[1]>> >>
      [] f \in {"anabpsk", "anaqpsk"} -> << <<p[1]>>, <<p[1]>> >>
      [] f = "fmodany" -> << <<p[1]>> >>
      [] f = "doppler" -> << <<p[1]>>, <<p[1]>>, <<p[1]>> >>
      [] f = "mexhat" -> << <<2 * CeilDiv(1500000000, p[1]) + 1>> >>
      [] f = "gdpower" -> << <<p[1]>>, <<(p[1] + 1) \div 2>>, <<(p[1] + 1) \div 2>> >>
      [] f = "sigmerge" -> << <<6>> >>
      [] f \in {"spwv-f", "spwv-t"} -> << <<24, 24>> >>
      [] f \in EvenWin -> << <<24, 24>>, <<24, 24>>, <<24, 24>> >>
      [] f = "gabor-window" -> << >>
      [] f = "at:morlet" -> << <<12, 4>>, <<12, 4>>, <<12, 4>> >>
      [] f \in Instants -> << <<24, 4>>, <<24, 4>>, <<24, 4>> >>
      [] f \in {"loctime", "locfreq"} -> << <<>>, <<>> >>
      [] f = "inst_freq" -> << <<Size(p) - 2>>, <<Size(p) - 2>> >>
      [] f = "inst_freq-t" -> << <<Size(p)>>, <<Size(p)>> >>
      [] f = "group_delay" -> << <<Size(p)>> >>
      [] f = "wide_band" -> << >>
      [] f = "renyi" -> << <<>> >>
      [] f = "ridges" -> << >>
Fs == {-700000000, -Half - 1, -Half, -300000000, 0, 1, 100000000, 250000000, Half - 1, Half, Half + 1, 700000000}
Ns == {-3, 0, 1, 2, 3, 8, 17}
Dom(f) ==
    CASE f \in AM \cup {"noisecg"} -> {<<n>> : n \in Ns \cup {-1, 100}}
      [] f = "fmconst" -> {<<n, a>> : n \in Ns, a \in Fs}
      [] f = "fmlin" -> {<<n, a, b>> : n \in {-1, 0, 2, 3, 9}, a \in Fs, b \in Fs}
      [] f = "fmodany" -> {<<n, c, a, t>> : n \in {1, 2, 5}, c \in {0, 1, 2}, a \in Fs, t \in {-8, -2, -1, 0, 1, 2, 3, 4, 10, 11, 12, 14}}
      [] f \in Keyed -> {<<n, a>> : n \in {3, 4, 8, 17}, a \in Fs}
      [] f = "doppler" -> {<<n, t, a, d, v, s>> : n \in {2, 5}, t \in {-2, 0, 1, 2, 3, 4, 10, 11}, a \in {-1, 0, 1, 200000000, Half, Half + 1},
                              d \in {-5, 0, 1, 900000000}, v \in {-1, 0, 700000000}, s \in {-1, 1}}
      [] f = "klauder" -> {<<n, a>> : n \in Ns, a \in Fs}
      [] f = "mexhat" -> {<<a>> : a \in {-700000000, -1, 0, 100000000, 250000000, 300000000, Half - 1, Half, Half + 1, 600000000, 1000000000}}
      [] f = "gdpower" -> {<<n, d, r>> : n \in {4, 5, 9, 16}, d \in {-2, 0, 1, 2, 4, 6}, r \in {-1000000000, -1, 0, 1, 500000000, 1000000000}}
      [] f = "sigmerge" -> {<<a, b, r>> : a \in 1..3, b \in 1..3, r \in 0..4}
      [] f \in EvenWin -> {<<l>> : l \in 1..12}
      [] f = "gabor-window" -> {<<l>> : l \in 1..12 \cup 45..48}
      [] f \in Instants -> {<<a, x, y, z>> : a \in {0, 3}, x \in 1..4, y \in 1..4, z \in 1..4}
      [] f \in Vectors -> {<<r, c>> : r \in {1, 2, 3, 32}, c \in {0, 1, 2, 32}} \cup {<<40, 0>>, <<40, 1>>, <<1, 40>>, <<40, 2>>, <<2, 40>>}
      [] f = "renyi" -> {<<a, v>> : a \in {1, 2, 3}, v \in {-1000000000, -1, 0, 1, 300000000}}
      [] f = "ridges" -> {<<j>> : j \in (0..4) \cup (10..18)}
=============================================================================
