------------------------------ MODULE MC_Chain ------------------------------
(* The merge rules over every combination of settings of a few names.          *)
EXTENDS Chain
CONSTANTS Names
VARIABLES hasfile, file, kw
Val == {[v |-> "True", t |-> TRUE], [v |-> "False", t |-> FALSE]}
Set2Seq(f) == LET RECURSIVE R(_)
                  R(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE
                                                   IN <<[k |-> k, v |-> f[k].v, t |-> f[k].t]>> \o R(S \ {k})
              IN R(DOMAIN f)
Settings == UNION {[D -> Val] : D \in SUBSET Names}
Init == hasfile \in BOOLEAN /\ file \in Settings /\ kw \in Settings /\ (~hasfile => DOMAIN file = {})
Next == FALSE /\ UNCHANGED <<hasfile, file, kw>>
Spec == Init /\ [][Next]_<<hasfile, file, kw>>
M == Merged(hasfile, Set2Seq(file), Set2Seq(kw))
A == Active(M, Builtin \cup Names)
\* keyword settings always win, then the file, then (only without a file) the defaults
KwWins == \A k \in DOMAIN kw : M[k] = kw[k] /\ (k \in A <=> kw[k].t)
FileNext == \A k \in (DOMAIN file) \ (DOMAIN kw) : M[k] = file[k]
DefaultsLast == \A k \in Builtin \ (DOMAIN kw \cup DOMAIN file) :
                   (k \in A) <=> (~hasfile /\ k \in DefaultOn)
NothingElse == \A k \in DOMAIN M : k \in DOMAIN kw \/ k \in DOMAIN file \/ (~hasfile /\ k \in DefaultOn \cup DefaultOff)
=============================================================================
