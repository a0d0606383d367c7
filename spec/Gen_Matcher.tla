----------------------------- MODULE Gen_Matcher -----------------------------
(* Every sequence of measurement outcomes of the given length for one superpixel; *)
(* the driver packs many of them into one camera.                                 *)
EXTENDS Matcher, Json
CONSTANTS Outs, Len0
VARIABLES h
Init == h \in [1..Len0 -> Outs]
Next == FALSE /\ h' = h
Spec == Init /\ [][Next]_h
Emit == PrintT("HIST|" \o ToJson([seq |-> h]))
=============================================================================
