------------------------------ MODULE Gen_Simtel ------------------------------
(* Every history of accesses of the given length to a simulated file of three       *)
(* events with two running iterators.                                                *)
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS MaxOps
VARIABLES h
Ops == {[op |-> "index", i |-> i] : i \in {-1, 0, 1, 2}} \cup {[op |-> "iter", it |-> i] : i \in 1..2} \cup {[op |-> "next", it |-> i] : i \in 1..2}
       \cup {[op |-> "slice", a |-> <<>>, b |-> <<2>>, c |-> <<>>], [op |-> "list", l |-> <<2, 0>>]}
Started(i) == \E k \in 1..Len(h) : h[k].op = "iter" /\ h[k].it = i
Init == h = <<>>
Next == /\ Len(h) < MaxOps
        /\ \E o \in Ops : (o.op = "next" => Started(o.it)) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_h
Emit == Len(h) = MaxOps => PrintT("HIST|" \o ToJson(h))
=============================================================================
