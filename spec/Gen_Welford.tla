----------------------------- MODULE Gen_Welford -----------------------------
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS Vals, MaxOps
VARIABLES h
Init == h = <<>>
Next == Len(h) < MaxOps /\ \E k \in 1..2, v \in Vals : h' = Append(h, [k |-> k, v |-> v])
Spec == Init /\ [][Next]_h
Emit == (Len(h) = MaxOps) => PrintT("HIST|" \o ToJson(h))
=============================================================================
