------------------------------ MODULE Gen_Masks ------------------------------
(* Histories over two mask objects and three files; laws checked on every state. *)
EXTENDS Masks, Json
CONSTANTS MaxOps
VARIABLES s, h, clk
Files == << [date |-> 190417, time |-> 1309, dead |-> <<1, 9>>, low |-> <<>>, pix |-> <<7>>],
            [date |-> 190423, time |-> 839, dead |-> <<2>>, low |-> <<1, 5>>, pix |-> <<40, 41, 42, 43>>],
            [date |-> 190423, time |-> 1100, dead |-> <<>>, low |-> <<9>>, pix |-> <<2, 3>>] >>
Ops == {[op |-> "latest", inst |-> i] : i \in 1..2}
   \cup {[op |-> o, inst |-> i, date |-> Files[f].date, time |-> Files[f].time] : o \in {"open", "merge"}, i \in 1..2, f \in 1..2}
   \cup {[op |-> "mergelatest", inst |-> i] : i \in 1..2}
   \cup {[op |-> "set", inst |-> 1, mask |-> m, idx |-> <<1, 9>>, val |-> v] : m \in {"dead", "bad_hv"}, v \in BOOLEAN}
   \cup {[op |-> "commit", inst |-> i] : i \in 1..2}
Full(o) == (IF o.op = "commit" THEN [date |-> 261119, time |-> 900 + clk, nnew |-> 1, now |-> <<<<261119, 900 + clk>>>>] ELSE [x |-> 0])
           @@ o @@ [err |-> "", obs |-> <<>>]
Init == s = MasksInit([files |-> Files]) /\ h = <<>> /\ clk = 0
Next == /\ Len(h) < MaxOps
        /\ \E o \in Ops : /\ (o.op \in {"merge", "mergelatest", "set", "commit"} => o.inst \in DOMAIN s.inst)
                          /\ s' = MasksStep(s, Full(o)).s /\ h' = Append(h, o)
                          /\ clk' \in {clk, clk + 1}
Spec == Init /\ [][Next]_<<s, h, clk>>
View == <<s, h>>
\* a committed object is what the next "latest" gives
CommitLatest == h # <<>> /\ h[Len(h)].op = "commit" => Loaded(Latest(s.files)) = s.inst[h[Len(h)].inst]
\* one file per name
Names == \A f, g \in s.files : f = g \/ Newer(f, g) \/ Newer(g, f)
\* merging is commutative, idempotent and only adds
MergeLaws == \A f, g \in s.files : LET a == Loaded(f) b == Loaded(g) IN
                Union(a, b) = Union(b, a) /\ Union(a, a) = a /\ All(a) \subseteq All(Union(a, b))
Emit == Len(h) = MaxOps /\ clk = 0 => PrintT("HIST|" \o ToJson([ops |-> h, files |-> Files]))
=============================================================================
