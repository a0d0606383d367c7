------------------------------ MODULE Gen_Stats ------------------------------
(* Every history of contributions (two per call or one), combination points and   *)
(* results over two pixels and two true charges.                                  *)
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS MaxOps
VARIABLES h
Ops == {[op |-> "add", p |-> p, x |-> x, big |-> b] : p \in {0, 1}, x \in {0, 6}, b \in BOOLEAN} \cup {[op |-> "finish", p |-> 0, x |-> 0, big |-> FALSE]}
Init == h = <<>>
Next == /\ Len(h) < MaxOps
        /\ \E o \in Ops : (o.op = "finish" => h # <<>>) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_h
Emit == (Len(h) = MaxOps) => PrintT("HIST|" \o ToJson(h))
=============================================================================
