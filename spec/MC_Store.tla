------------------------------ MODULE MC_Store ------------------------------
(* The concrete writer/appender with its buffers, structured like the code:    *)
(* rows wait in a per-table buffer and are flushed when the buffer is large    *)
(* or when the session ends; metadata is kept until the end and then merged    *)
(* into the file; a key that only has metadata is a placeholder on disk, which *)
(* must be replaced (keeping its metadata) when rows are first appended.       *)
(* Checked against the abstract file of Store.tla at every point, for every    *)
(* sequence of operations, every flush decision and every way of leaving.      *)
EXTENDS Lib, TLC, FiniteSets

CONSTANTS Keys, Names, Entries, MaxRows, MaxOps, MaxSess

VARIABLES open,    \* a session is open
          nsess, nops,
          buf,     \* rows accepted, not on disk: key -> Seq
          disk,    \* key -> [kind: "absent"|"placeholder"|"app"|"fix", rows]
          pmeta,   \* pending metadata of the session: set of <<key,name,entry,code>>
          dmeta,   \* metadata on disk
          nb,      \* per-table row count kept for the size accounting (n_bytes)
          dnb,     \* the counts stored in the file, -1 if none
          touched, \* keys of this session
          abs, ameta, nextrow   \* abstract file

vars == <<open, nsess, nops, buf, disk, pmeta, dmeta, nb, dnb, touched, abs, ameta, nextrow>>

Merge(old, new) == {x \in old : \A y \in new : <<y[1], y[2], y[3]>> # <<x[1], x[2], x[3]>>} \cup new

Init == /\ open = FALSE /\ nsess = 0 /\ nops = 0
        /\ buf = [k \in Keys |-> <<>>]
        /\ disk = [k \in Keys |-> [kind |-> "absent", rows |-> <<>>]]
        /\ pmeta = {} /\ dmeta = {}
        /\ nb = [k \in Keys |-> 0] /\ dnb = [k \in Keys |-> -1]
        /\ touched = {}
        /\ abs = [k \in Keys |-> <<>>] /\ ameta = {} /\ nextrow = 1

Open == /\ ~open /\ nsess < MaxSess
        /\ open' = TRUE /\ nsess' = nsess + 1
        /\ buf' = [k \in Keys |-> <<>>] /\ pmeta' = {} /\ touched' = {}
        \* counts of the existing tables are taken over from the file
        /\ nb' = [k \in Keys |-> IF dnb[k] > 0 THEN dnb[k] ELSE 0]
        /\ UNCHANGED <<nops, disk, dmeta, dnb, abs, ameta, nextrow>>

\* flush of one table; a placeholder is replaced, its metadata carried over
FlushDisk(k, d, rows) ==
    IF rows = <<>> THEN d
    ELSE [d EXCEPT ![k] = [kind |-> "app", rows |-> (IF @.kind = "app" THEN @.rows ELSE <<>>) \o rows]]
Carried(k, d, rows, pm, dm) ==
    IF rows # <<>> /\ d[k].kind = "placeholder"
    THEN <<Merge({x \in dm : x[1] = k}, {x \in pm : x[1] = k}) \cup {x \in pm : x[1] # k},
           {x \in dm : x[1] # k}>>
    ELSE <<pm, dm>>

AppendRow(k) ==
    /\ open /\ nops < MaxOps /\ nextrow <= MaxRows /\ disk[k].kind # "fix"
    /\ \E flush \in BOOLEAN :
         LET rows == buf[k] \o <<nextrow>>
             c    == Carried(k, disk, rows, pmeta, dmeta)
         IN IF flush
            THEN /\ disk' = FlushDisk(k, disk, rows) /\ buf' = [buf EXCEPT ![k] = <<>>]
                 /\ pmeta' = c[1] /\ dmeta' = c[2]
                 /\ nb' = [nb EXCEPT ![k] = @ + Len(rows)]
            ELSE /\ buf' = [buf EXCEPT ![k] = rows] /\ UNCHANGED <<disk, pmeta, dmeta, nb>>
    /\ touched' = touched \cup {k}
    /\ abs' = [abs EXCEPT ![k] = @ \o <<nextrow>>]
    /\ nextrow' = nextrow + 1 /\ nops' = nops + 1
    /\ UNCHANGED <<open, nsess, dnb, ameta>>

Write(k) ==
    /\ open /\ nops < MaxOps /\ nextrow <= MaxRows
    /\ disk' = [disk EXCEPT ![k] = [kind |-> "fix", rows |-> <<nextrow>>]]
    /\ buf' = [buf EXCEPT ![k] = <<>>]
    \* the node is replaced: metadata on disk is carried over into the session
    /\ pmeta' = Merge({x \in dmeta : x[1] = k}, {x \in pmeta : x[1] = k}) \cup {x \in pmeta : x[1] # k}
    /\ dmeta' = {x \in dmeta : x[1] # k}
    /\ nb' = [nb EXCEPT ![k] = 1]
    /\ touched' = touched \cup {k}
    /\ abs' = [abs EXCEPT ![k] = <<nextrow>>]
    /\ nextrow' = nextrow + 1 /\ nops' = nops + 1
    /\ UNCHANGED <<open, nsess, dnb, ameta>>

Meta(k, n, e) ==
    /\ open /\ nops < MaxOps
    /\ LET new == {<<k, n, e, nops>>}
       IN pmeta' = Merge(pmeta, new) /\ ameta' = Merge(ameta, new)
    /\ nops' = nops + 1
    /\ UNCHANGED <<open, nsess, buf, disk, dmeta, nb, dnb, touched, abs, nextrow>>

\* leaving the session: normally, by an exception or by an explicit finish
Close ==
    /\ open
    /\ LET RECURSIVE F(_, _, _, _)
           F(ks, d, pm, dm) ==
               IF ks = {} THEN <<d, pm, dm>>
               ELSE LET k == CHOOSE x \in ks : TRUE
                        c == Carried(k, d, buf[k], pm, dm)
                    IN F(ks \ {k}, FlushDisk(k, d, buf[k]), c[1], c[2])
           f  == F(touched, disk, pmeta, dmeta)
           mk == {x[1] : x \in f[2]}
       IN /\ disk' = [k \in Keys |-> IF f[1][k].kind = "absent" /\ k \in mk
                                     THEN [kind |-> "placeholder", rows |-> <<>>] ELSE f[1][k]]
          /\ dmeta' = Merge(f[3], f[2])
          /\ pmeta' = {}
    /\ nb' = [k \in Keys |-> nb[k] + Len(buf[k])]
    /\ dnb' = [k \in Keys |-> IF k \in touched THEN nb'[k] ELSE dnb[k]]
    /\ buf' = [k \in Keys |-> <<>>]
    /\ open' = FALSE
    /\ UNCHANGED <<nsess, nops, touched, abs, ameta, nextrow>>

Next == Open \/ Close \/ \E k \in Keys : AppendRow(k) \/ Write(k) \/ \E n \in Names, e \in Entries : Meta(k, n, e)
Spec == Init /\ [][Next]_vars

\* ---- refinement of the abstract file --------------------------------------
RowsInv == \A k \in Keys : disk[k].rows \o buf[k] = abs[k]
MetaInv == Merge(dmeta, pmeta) = ameta
ClosedInv == ~open => /\ \A k \in Keys : disk[k].rows = abs[k]
                      /\ dmeta = ameta
                      /\ \A k \in Keys : Max(dnb[k], 0) = Len(abs[k])
\* rows on disk are only ever extended or replaced by a whole-table write
NeverLost == [][\A k \in Keys : LET a == abs[k] b == abs'[k]
                                IN b = a \/ (Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a) \/ Len(b) = 1]_vars
\* vacuity probes: must all be reachable (checked by MC_StoreReach)
=============================================================================
