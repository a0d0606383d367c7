----------------------------- MODULE Gen_Spectrum -----------------------------
(* Every history of the given length over two fitters and one configuration file. *)
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS MaxOps
VARIABLES h
Ops == {[op |-> "update", f |-> f, var |-> v] : f \in 1..2, v \in 1..2}
  \cup {[op |-> "save", f |-> f] : f \in 1..2}
  \cup {[op |-> "load", f |-> f] : f \in 1..2}
  \cup {[op |-> "partial", f |-> f, var |-> v] : f \in 1..2, v \in 1..2}
  \cup {[op |-> "fit", f |-> f, var |-> v] : f \in 1..2, v \in 1..2}
  \cup {[op |-> "upinit", f |-> f] : f \in 1..2}
Init == h = <<>>
HasFile == \E i \in 1..Len(h) : h[i].op = "save"
Next == /\ Len(h) < MaxOps
        /\ \E o \in Ops : (o.op = "load" => HasFile) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_h
Emit == Len(h) = MaxOps => PrintT("HIST|" \o ToJson(h))
=============================================================================
