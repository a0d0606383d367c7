----------------------------- MODULE MC_Reducers -----------------------------
(* Sanity of the pulse definitions themselves over every short waveform.       *)
EXTENDS Reducers
CONSTANTS N, Vals
VARIABLES w
Init == w \in [1..N -> Vals]
Next == FALSE /\ w' = w
Spec == Init /\ [][Next]_w
PW == Pulse(w, 1, N - 1)
Pk == 1 + ArgMax(SubSeq(w, 2, N - 1))
Strict == w[Pk + 1] >= w[Pk] /\ w[Pk + 1] >= w[Pk + 2] /\ (w[Pk + 1] > w[Pk] \/ w[Pk + 1] > w[Pk + 2])
\* a local maximum is interpolated to within half a sample of the sample itself,
\* and never below the sample value
InterpNear == Strict => /\ Abs(PW.t - 1000 * Pk) <= 500
                        /\ 10 * (PW.amp + 1) >= 10000 * w[Pk + 1] - 1000 * SumSeq(SubSeq(w, 1, Min(10, N)))
\* widths and rise times of a local maximum are not negative
WidthPos == Strict /\ PW.amp > 0 => /\ PW.fwhm \in {ANY, NaN} \/ PW.fwhm >= 0
                                    /\ PW.rise \in {ANY, NaN} \/ PW.rise >= 0
\* correlation with a single unit sample is the waveform itself
CorrId == Corr(w, <<1>>, 0) = w /\ Corr(w, <<0, 1, 0>>, 1) = w
\* the sliding-window maximum is at least any window sum inside the waveform
SlideMax == \A i \in 0..(N - 2) : MaxSeq(Slide(w, 2)) >= WinSum(w, i, i + 2)
\* the variance is non-negative and zero exactly for flat waveforms
VarOk == Var2(w, 0, N) >= 0 /\ (Var2(w, 0, N) = 0 <=> \A i \in 1..N : w[i] = w[1])
\* window sums add up
SumSplit == \A k \in 0..N : WinSum(w, 0, k) + WinSum(w, k, N) = SumSeq(w)
=============================================================================
