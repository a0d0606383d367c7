----------------------------- MODULE Gen_Extract -----------------------------
(* Every pattern of good, stale and incomplete events, with every limit on the       *)
(* number of events and every set of moments at which the buffer is flushed early.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxEvents
VARIABLES h
Init == \E m \in 0..MaxEvents, l \in 0..MaxEvents :
           h \in {[kinds |-> x, limit |-> l, flush |-> y] : x \in [1..m -> {0, 1, 2, 3}], y \in [1..m -> BOOLEAN]}
Next == FALSE /\ h' = h
Spec == Init /\ [][Next]_h
Emit == PrintT("HIST|" \o ToJson(h))
=============================================================================
