----------------------------- MODULE AxesDesign -----------------------------
(* The two frequency axes, swept bin by bin.  TLC checks for every n that the  *)
(* FFT-order axis is a bijection onto the n residues of k/n, that it lies in    *)
(* [-1/2, 1/2), that non-negative frequencies come first, and that the          *)
(* Wigner-Ville axis covers [0, 1/2) in equal steps.  It also enumerates the    *)
(* (distribution, N, n) grid replayed into the library.                         *)
EXTENDS Kernels, TLC, Json
CONSTANTS MaxN, MaxF, Emit
VARIABLES kind, N, n, k, fft, wv

AllKinds == {"stft", "spec", "wv", "pwv", "mh", "pmh", "page", "ppage"}
vars == <<kind, N, n, k, fft, wv>>
Init == /\ kind \in (IF Emit THEN AllKinds ELSE {"stft"})
        /\ N \in 1..MaxN /\ n \in 0..MaxF /\ k = 0 /\ fft = <<>> /\ wv = <<>>
        /\ IF Emit THEN PrintT(<<"SCEN", ToJson([kind |-> kind, N |-> N, n |-> n])>>) ELSE TRUE
Bins == IF n = 0 THEN N ELSE n
Next == /\ ~Emit /\ k < Bins
        /\ fft' = Append(fft, FFTAxis(Bins, k)) /\ wv' = Append(wv, WVAxis(Bins, k))
        /\ k' = k + 1 /\ UNCHANGED <<kind, N, n>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InRange == \A j \in 1..k : -Bins <= fft[j] /\ fft[j] < Bins /\ 0 <= wv[j] /\ wv[j] < Bins
Residue == \A j \in 1..k : fft[j] % 2 = 0 /\ ((fft[j] \div 2 - (j - 1)) % Bins) = 0
Distinct == \A a, b \in 1..k : a # b => fft[a] # fft[b]
SignOrder == \A a, b \in 1..k : (a < b /\ fft[a] < 0) => (fft[b] < 0 /\ fft[a] < fft[b])
Steps == \A j \in 1..(k - 1) : wv[j + 1] - wv[j] = 1
Complete == <>(k = Bins)
=============================================================================
