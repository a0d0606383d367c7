---------------------------- MODULE Gen_Counting ----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS As, Cs
VARIABLES h
Init == h \in [a : As, c : Cs]
Next == FALSE /\ h' = h
Spec == Init /\ [][Next]_h
Emit == PrintT("HIST|" \o ToJson(h))
=============================================================================
