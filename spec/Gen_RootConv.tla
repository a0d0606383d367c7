---------------------------- MODULE Gen_RootConv ----------------------------
(* Every mix of kinds of metadata entries, columns with and without times, named and *)
(* automatic output, existing and missing input.                                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES h
Init == \E n \in 0..N : h \in [kinds : [1..n -> {"str", "none", "num", "time"}], cpu : BOOLEAN, named : BOOLEAN, exists : {TRUE, TRUE}]
Next == FALSE /\ h' = h
Spec == Init /\ [][Next]_h
Emit == PrintT("HIST|" \o ToJson(h))
=============================================================================
