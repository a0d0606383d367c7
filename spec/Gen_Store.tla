------------------------------ MODULE Gen_Store ------------------------------
(* Enumerates the histories of create/append sessions: every sequence of at    *)
(* most MaxOps operations over two tables, with at most MaxSess sessions,       *)
(* respecting the contract (no append to a table written as a whole).          *)
EXTENDS Lib, TLC, Json
CONSTANTS Keys, MKeys, Names, Entries, MaxOps, MaxSess, Hows, Ops, MinSess

VARIABLES hist, open, nsess, nops, kind
vars == <<hist, open, nsess, nops, kind>>

Init == /\ hist = <<[op |-> "open", mode |-> "w"]>> /\ open = TRUE /\ nsess = 1 /\ nops = 0
        /\ kind = [k \in Keys |-> "none"]

App == /\ "append" \in Ops /\ open /\ nops < MaxOps
       /\ \E k \in Keys, b \in BOOLEAN :
            /\ kind[k] # "fix"
            /\ kind' = [kind EXCEPT ![k] = "app"]
            /\ hist' = Append(hist, [op |-> "append", key |-> k, big |-> b])
       /\ nops' = nops + 1 /\ UNCHANGED <<open, nsess>>
Wri == /\ "write" \in Ops /\ open /\ nops < MaxOps
       /\ \E k \in Keys :
            /\ kind' = [kind EXCEPT ![k] = "fix"]
            /\ hist' = Append(hist, [op |-> "write", key |-> k])
       /\ nops' = nops + 1 /\ UNCHANGED <<open, nsess>>
Met == /\ "meta" \in Ops /\ open /\ nops < MaxOps
       /\ \E k \in MKeys, n \in Names, e \in Entries :
            hist' = Append(hist, [op |-> "meta", key |-> k, name |-> n, entry |-> e])
       /\ nops' = nops + 1 /\ UNCHANGED <<open, nsess, kind>>
Map == /\ "mapping" \in Ops /\ open /\ nops < MaxOps
       /\ hist' = Append(hist, [op |-> "mapping"])
       /\ nops' = nops + 1 /\ UNCHANGED <<open, nsess, kind>>
Close == /\ open
         /\ \E h \in Hows : hist' = Append(hist, [op |-> "close", how |-> h])
         /\ open' = FALSE /\ UNCHANGED <<nsess, nops, kind>>
Open == /\ ~open /\ nsess < MaxSess /\ nops < MaxOps
        /\ hist' = Append(hist, [op |-> "open", mode |-> "a"])
        /\ open' = TRUE /\ nsess' = nsess + 1 /\ UNCHANGED <<nops, kind>>
Next == App \/ Wri \/ Met \/ Map \/ Close \/ Open
Spec == Init /\ [][Next]_vars

\* print complete histories that cannot be prolonged, or all when shorter ones matter
Emit == (~open /\ nsess >= MinSess /\ nops = MaxOps) => PrintT("HIST|" \o ToJson(hist))
=============================================================================
