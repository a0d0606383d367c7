----------------------------- MODULE MC_RootConv -----------------------------
(* The string branches are filled once, after all of them are bound: the order of    *)
(* binding, setting and filling that keeps every entry, for every mix of entries.     *)
EXTENDS RootConv
CONSTANTS Keys, Kinds
VARIABLES meta, todo, bound, tree, num, stage
vars == <<meta, todo, bound, tree, num, stage>>
File == [meta |-> meta]
Val(k) == CASE k = "str" -> "text" [] k = "none" -> "" [] OTHER -> <<0, 8>>
Init == /\ meta \in [1..Keys -> {<<ToString(i), k, Val(k)>> : i \in 1..Keys, k \in Kinds}]
        /\ \A i \in 1..Keys : meta[i][1] = ToString(i)
        /\ todo = 1..Keys /\ bound = {} /\ tree = {} /\ num = {} /\ stage = "meta"
Entry(i) == meta[i]
Take == /\ stage = "meta" /\ \E i \in todo :
            /\ todo' = todo \ {i}
            /\ IF Entry(i)[2] \in {"str", "none"}
               THEN bound' = bound \cup {<<Entry(i)[1], IF Entry(i)[2] = "none" THEN "None" ELSE Entry(i)[3]>>} /\ UNCHANGED num
               ELSE num' = num \cup {<<Entry(i)[1], Entry(i)[3]>>} /\ UNCHANGED bound
        /\ UNCHANGED <<meta, tree, stage>>
Fill == stage = "meta" /\ todo = {} /\ tree' = bound /\ stage' = "filled" /\ UNCHANGED <<meta, todo, bound, num>>
Next == Take \/ Fill
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllKept == stage = "filled" => tree = Strings(File) /\ num = Numbers(File)
Nothing == {x[1] : x \in Strings(File)} \cap {x[1] : x \in Numbers(File)} = {}
Every == {x[1] : x \in Strings(File)} \cup {x[1] : x \in Numbers(File)} = {meta[i][1] : i \in 1..Keys}
Ends == <>(stage = "filled")
=============================================================================
