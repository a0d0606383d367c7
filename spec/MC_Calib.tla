------------------------------ MODULE MC_Calib ------------------------------
(* Laws of the time calibration, for all waveforms, corrections and denominators  *)
(* within the bounds.                                                            *)
EXTENDS Calib
CONSTANTS Vals, N, Den, MaxA
VARIABLES w, a
Init == w \in [1..N -> Vals] /\ a \in -MaxA..MaxA
Next == UNCHANGED <<w, a>>
Spec == Init /\ [][Next]_<<w, a>>
T == TimeRow(w, a, Den)
\* a whole-sample correction moves samples (within the waveform)
Whole == a % Den = 0 => \A s \in 1..N : (s - a \div Den) \in 1..N => T[s] = Den * w[s - a \div Den]
\* between two samples the result lies between them
Between == \A s \in 1..N : LET num == (s - 1) * Den - a
                           IN (num >= 0 /\ num <= (N - 1) * Den) =>
                              LET i == Left(num, Den, N) + 1
                              IN T[s] >= Den * Min(w[i], w[i + 1]) /\ T[s] <= Den * Max(w[i], w[i + 1])
\* linear waveforms stay on their line, also beyond the edges
Line == (\E m \in -3..3 : \A s \in 1..N : w[s] = w[1] + m * (s - 1)) =>
        \A s \in 1..(N - 1) : T[s + 1] - T[s] = Den * (w[2] - w[1])
\* continuity: one step of the correction moves a sample by one slope
Cont == \A s \in 1..N : \E i \in 1..(N - 1) : TimeRow(w, a + 1, Den)[s] - T[s] = w[i] - w[i + 1]
=============================================================================
