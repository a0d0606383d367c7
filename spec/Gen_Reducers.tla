---------------------------- MODULE Gen_Reducers ----------------------------
(* Enumerates pulse placements: every position, shape and combination of two    *)
(* pulses that decides which branch of the definitions applies.                 *)
EXTENDS Lib, TLC, Json
CONSTANTS Ns, Shapes, Settings
VARIABLE c
Init == c \in {[op |-> "pulse", n |-> n, pos |-> p, shape |-> s, set |-> t] :
                 n \in Ns, p \in 0..60, s \in Shapes, t \in Settings}
        /\ c.pos < c.n
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Emit == PrintT("HIST|" \o ToJson(<<c>>))
=============================================================================
