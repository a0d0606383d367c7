------------------------------- MODULE Gen_DL1 -------------------------------
(* Every history of accesses of the given length on one file of three events     *)
(* (number 0: an event that is not in the file), with two running iterators.       *)
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS MaxOps
VARIABLES h
Iter == {[kind |-> "events"], [kind |-> "rows"]} \cup {[kind |-> "chunks", n |-> n] : n \in {0, 2}}
        \cup {[kind |-> "selected", list |-> l] : l \in {<<>>, <<3, 1>>, <<2, 0, 2>>}}
Ops == {[op |-> "get", iev |-> i] : i \in 0..3} \cup {[op |-> "position", j |-> j] : j \in {0, 2}}
  \cup {[op |-> "iter", it |-> i] @@ k : i \in 1..2, k \in Iter} \cup {[op |-> "next", it |-> i] : i \in 1..2}
  \cup {[op |-> "all"] @@ k : k \in Iter} \cup {[op |-> "lookup"], [op |-> "table"]}
Started(i) == \E k \in 1..Len(h) : h[k].op = "iter" /\ h[k].it = i
Init == h = <<>>
Next == /\ Len(h) < MaxOps
        /\ \E o \in Ops : (o.op = "next" => Started(o.it)) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_h
Emit == Len(h) = MaxOps => PrintT("HIST|" \o ToJson(h))
=============================================================================
