---------------------------- MODULE Gen_Lifecycle ---------------------------
(* All sequences of events, with a step that fails at any place, for reducers  *)
(* of every inheritance of the extensions; a step machine which interleaves    *)
(* the steps of the reducers in any way is checked against the same rules.     *)
EXTENDS Lifecycle, Json
CONSTANTS MaxEv, Emitting
VARIABLES cfg, ops, pend, log

Cl(b, c, p, q) == [base |-> b, cols |-> c, prep |-> p, post |-> q]
Shapes == {<<Cl(0, <<"a", "b">>, p1, q1), Cl(b2, <<"c">>, p2, q2)>> : b2 \in {0, 1}, p1 \in BOOLEAN, q1 \in BOOLEAN, p2 \in BOOLEAN, q2 \in BOOLEAN}
Cfgs == {[classes |-> s, active |-> a, names |-> <<>>] : s \in Shapes, a \in {<<"a", "b", "c">>, <<"b", "c">>, <<"a", "c">>, <<"c">>, <<"a">>}}
Plans(c) == {<<>>} \cup
            UNION {{<<i, "column", x>> : x \in On(c, i)}
                   \cup {<<i, "prepare", ToString(x)>> : x \in SeqToSet(Ext(c.classes, i, "prepare"))}
                   \cup {<<i, "post", ToString(x)>> : x \in SeqToSet(Ext(c.classes, i, "post"))} : i \in Runs(c)}
Init == cfg \in Cfgs /\ ops = <<>> /\ pend = <<>> /\ log = <<>>

\* a new event
Begin == /\ pend = <<>> /\ Len(ops) < MaxEv
         /\ \E f \in Plans(cfg) : pend' = <<[op |-> "event", fail |-> f]>>
         /\ log' = <<>> /\ UNCHANGED <<cfg, ops>>
\* any step of any reducer that is due
Due(i) == LET l == Mine(log, i)
              p == Ext(cfg.classes, i, "prepare")
              q == Ext(cfg.classes, i, "post")
              np == Len(Kind(l, "prepare"))
              nq == Len(Kind(l, "post"))
              left == On(cfg, i) \ SeqToSet(Whats(Kind(l, "column")))
          IN IF np < Len(p) THEN {<<i, "prepare", ToString(p[np + 1])>>}
             ELSE IF left # {} THEN {<<i, "column", x>> : x \in left}
             ELSE IF nq < Len(q) THEN {<<i, "post", ToString(q[nq + 1])>>} ELSE {}
Failed == pend # <<>> /\ pend[1].fail # <<>> /\ log # <<>> /\ log[Len(log)] = pend[1].fail
Work == /\ ~Emitting /\ pend # <<>> /\ ~Failed
        /\ \E i \in Runs(cfg) : \E x \in Due(i) : log' = Append(log, x)
        /\ UNCHANGED <<cfg, ops, pend>>
Over == Failed \/ (\A i \in Runs(cfg) : Due(i) = {})
End == /\ pend # <<>> /\ (Emitting \/ Over)
       /\ ops' = Append(ops, pend[1]) /\ pend' = <<>> /\ UNCHANGED <<cfg, log>>
Next == Begin \/ Work \/ End
Spec == Init /\ [][Next]_<<cfg, ops, pend, log>> /\ WF_<<cfg, ops, pend, log>>(Next)

\* what the trace specification asks for holds of every interleaving
Obeyed == \A i \in Runs(cfg) :
             LET l == Mine(log, i) IN
             /\ ColsOk(cfg, i, l, FALSE) /\ PrepOk(cfg, i, l, FALSE) /\ PostOk(cfg, i, l, FALSE)
             /\ InOrder(l) /\ Complete(cfg, i, l)
Whole == (pend # <<>> /\ Over /\ ~Failed) => \A i \in Runs(cfg) :
             LET l == Mine(log, i) IN ColsOk(cfg, i, l, TRUE) /\ PrepOk(cfg, i, l, TRUE) /\ PostOk(cfg, i, l, TRUE)
Ends == <>(Len(ops) = MaxEv)
Emit == Emitting /\ Len(ops) = MaxEv => PrintT("HIST|" \o ToJson([cfg |-> cfg, ops |-> ops]))
=============================================================================
