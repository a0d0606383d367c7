----------------------------- MODULE Gen_SiPM -----------------------------
(* Every combination of missing entries at the ends of two columns with every place  *)
(* a question can have relative to the rows.                                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Rows
VARIABLES h
Ends == {x \in (0..2) \X (0..2) : x[1] + x[2] <= Rows - 1}
Init == h \in [key : 1..4, other : 1..4, mkey : Ends, mother : Ends, pos : 0..(4 * Rows)]
Next == FALSE /\ h' = h
Spec == Init /\ [][Next]_h
Emit == (h.key # h.other) => PrintT("HIST|" \o ToJson(h))
=============================================================================
