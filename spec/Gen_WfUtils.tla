------------------------------ MODULE Gen_WfUtils ------------------------------
(* Every window, file length and sequence of processed events.                    *)
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS Vals, Files, Bases, Len0
VARIABLES h
Init == \E f \in Files, n \in Bases : h \in {[file |-> f, nbase |-> n, ev |-> x] : x \in [1..Len0 -> Vals]}
Next == FALSE /\ h' = h
Spec == Init /\ [][Next]_h
Emit == PrintT("HIST|" \o ToJson(h))
=============================================================================
