----------------------------- MODULE MC_WfReader -----------------------------
(* Addressing laws for all sizes, slices and indices within the bounds.          *)
EXTENDS WfReader
CONSTANTS MaxLen, B
VARIABLES n, a, b, c
Opt == {<<>>} \cup {<<x>> : x \in -B..B}
Init == n \in 0..MaxLen /\ a \in Opt /\ b \in Opt /\ c \in ({<<>>} \cup {<<x>> : x \in (-3..3) \ {0}})
Next == FALSE /\ UNCHANGED <<n, a, b, c>>
Spec == Init /\ [][Next]_<<n, a, b, c>>
Ix == SliceIdx(a, b, c, n)
InRange == \A k \in 1..Len(Ix) : Ix[k] \in 0..(n - 1)
Monotone == \A j, k \in 1..Len(Ix) : j < k => (IF c = <<>> \/ c[1] > 0 THEN Ix[j] < Ix[k] ELSE Ix[j] > Ix[k])
Full == a = <<>> /\ b = <<>> /\ (c = <<>> \/ c = <<1>>) => Ix = [k \in 1..n |-> k - 1]
Reverse == a = <<>> /\ b = <<>> /\ c = <<-1>> => Ix = [k \in 1..n |-> n - k]
\* consecutive slices share out the events
Split == (c = <<>> /\ a = <<>> /\ b # <<>>) => Ix \o SliceIdx(b, <<>>, <<>>, n) = [k \in 1..n |-> k - 1]
Signed == \A i \in -B..B : Valid(i, n) <=> (i \in 0..(n - 1) \/ (i + n \in 0..(n - 1) /\ i < 0))
=============================================================================
