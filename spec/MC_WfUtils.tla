------------------------------ MODULE MC_WfUtils ------------------------------
(* The slot-by-slot baseline is the rolling average it claims to be, for every    *)
(* sequence of processed events; laws of shifting.                               *)
EXTENDS WfUtils
CONSTANTS Vals, MaxFile, MaxBase, MaxOps
VARIABLES src, h, b, nbase
W(v) == << <<v, 0>> >>
Init == /\ src \in UNION {[1..n -> Vals] : n \in 0..MaxFile}
        /\ nbase \in 1..MaxBase
        /\ h = <<>>
        /\ b = BInit([k \in 1..Len(src) |-> W(src[k])], nbase, 1, 1)
Next == /\ Len(h) < MaxOps
        /\ \E v \in Vals : h' = Append(h, v) /\ b' = BStep(b, W(v))
        /\ UNCHANGED <<src, nbase>>
Spec == Init /\ [][Next]_<<src, h, b, nbase>>
\* the definition: the latest nb processed events, plus the file's first events in slots not replaced
Rolling == LET nb == Max(Min(nbase, Len(src)), 1)
               m == Min(nb, Len(h))
               latest == SumSeq([k \in 1..m |-> h[Len(h) - m + k]])
               first == IF Len(src) = 0 THEN 0 ELSE SumSeq([k \in 1..(nb - m) |-> src[m + k]])
           IN b.nb = nb /\ BNum(b) = <<latest + first>>
\* shifting moves, fills, and shifting back restores what was not lost
Shifts == \A n \in -2..2 : LET w == h \o src
                               u == ShiftRow(w, n, 9)
                           IN Len(w) > 2 => /\ \A s \in 1..Len(w) : (s + n \in 1..Len(w)) => u[s + n] = w[s]
                                            /\ Cardinality({s \in 1..Len(w) : s - n \notin 1..Len(w)}) = Abs(n)
                                            /\ \A s \in 1..Len(w) : s - n \notin 1..Len(w) => u[s] = 9
AlignMax == LET w == h \o src IN \A t \in 0..(Len(w) - 1) : Len(w) > 0 => Align(<<w>>, t, 0)[1][t + 1] = MaxSeq(w)
=============================================================================
