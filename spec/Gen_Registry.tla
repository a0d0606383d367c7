---------------------------- MODULE Gen_Registry ----------------------------
(* Enumerates histories of class definitions and checks the ownership rules on  *)
(* every one of them.                                                          *)
EXTENDS Registry, Json
CONSTANTS Names, Cols, MaxDefs, Plain
VARIABLES st, hist
Def(n, b, c, a, i) == [op |-> "define", name |-> n, bases |-> b, cols |-> c, absm |-> a, impl |-> i, err |-> "",
                       columns |-> <<>>, offered |-> <<>>]
ColSeqs == IF Plain THEN {<<>>} ELSE {<<>>} \cup {<<c>> : c \in Cols} \cup {<<c, d>> : c \in Cols, d \in Cols}
OkSeq(q) == IsInjectiveSeq(q)
Init == st = RegistryInit([x |-> 0]) /\ hist = <<>>
Next == /\ Len(hist) < MaxDefs
        /\ \E n \in Names, b \in 0..Len(hist), c \in ColSeqs, a \in (IF Plain THEN BOOLEAN ELSE {FALSE}),
              i \in (IF Plain THEN BOOLEAN ELSE {FALSE}) :
             /\ OkSeq(c) /\ ~(a /\ i)
             /\ (IF b = 0 THEN TRUE ELSE st.classes[b].ok)
             \* outside the contract: the columns of a class body that was refused half way
             /\ LET d == Def(n, <<b>>, c, a, i) IN Refused(st, d) => Taken(st, d) \subseteq DOMAIN st.owner
             /\ LET d == Def(n, <<b>>, c, a, i)
                IN st' = RegistryStep(st, d).s /\ hist' = Append(hist, d)
Spec == Init /\ [][Next]_<<st, hist>>
\* each column belongs to one name, and every class that was accepted only uses columns of its own name
OwnerInv == \A i \in 1..Len(st.classes) : st.classes[i].ok =>
               \A c \in SeqToSet(st.classes[i].cols) : st.owner[c] = st.classes[i].name
\* ownership never changes
Stable == [][\A c \in DOMAIN st.owner : c \in DOMAIN st'.owner /\ st'.owner[c] = st.owner[c]]_<<st, hist>>
Emit == Len(hist) = MaxDefs => PrintT("HIST|" \o ToJson(hist))
=============================================================================
