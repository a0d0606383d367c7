----------------------------- MODULE Gen_WfReader -----------------------------
(* Every history of accesses of the given length on one reader of three events    *)
(* (limited to two or not), with up to two running iterators.                     *)
EXTENDS Sequences, Integers, TLC, Json
CONSTANTS MaxOps
VARIABLES h
Ops == {[op |-> "index", i |-> i] : i \in {-4, -3, -1, 0, 1, 2, 3}}
  \cup {[op |-> "slice", a |-> x[1], b |-> x[2], c |-> x[3]] :
          x \in {<< <<>>, <<>>, <<>> >>, << <<1>>, <<>>, <<>> >>, << <<>>, <<-1>>, <<>> >>, << <<>>, <<>>, <<-1>> >>}}
  \cup {[op |-> "list", l |-> <<2, 0>>], [op |-> "list", l |-> <<-1, 1, 1>>]}
  \cup {[op |-> "iter", it |-> i] : i \in 1..2} \cup {[op |-> "next", it |-> i] : i \in 1..2} \cup {[op |-> "all"]}
Started(i) == \E k \in 1..Len(h) : h[k].op = "iter" /\ h[k].it = i
Init == \E m \in {0, 2, 5} : h = <<[op |-> "open", max |-> m]>>
Next == /\ Len(h) <= MaxOps
        /\ \E o \in Ops : (o.op = "next" => Started(o.it)) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_h
Emit == Len(h) = MaxOps + 1 => PrintT("HIST|" \o ToJson(h))
=============================================================================
