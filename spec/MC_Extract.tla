----------------------------- MODULE MC_Extract -----------------------------
(* The extraction as it runs: events are read one by one, rows are buffered and      *)
(* flushed to the file at any moment (sorted within what is flushed).  Whatever the  *)
(* pattern of bad events and the moments of flushing, the finished file holds one    *)
(* row per pixel of every good event, ordered by event then pixel, and the counters  *)
(* and times describe exactly those events.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxEvents, NPix
VARIABLES kinds, limit, k, buf, file, n, skipped, first, last, done
vars == <<kinds, limit, k, buf, file, n, skipped, first, last, done>>
Kinds == {"good", "stale", "missing", "both"}
Total == IF limit > 0 /\ limit < Len(kinds) THEN limit ELSE Len(kinds)
Init == /\ kinds \in UNION {[1..m -> Kinds] : m \in 0..MaxEvents}
        /\ limit \in 0..MaxEvents
        /\ k = 0 /\ buf = <<>> /\ file = <<>> /\ n = 0 /\ skipped = 0 /\ first = -1 /\ last = -1 /\ done = FALSE
Rows(e) == [p \in 1..NPix |-> <<e, p - 1>>]
Flush == buf # <<>> /\ ~done /\ file' = file \o buf /\ buf' = <<>> /\ UNCHANGED <<kinds, limit, k, n, skipped, first, last, done>>
Read == /\ k < Total
        /\ IF kinds[k + 1] = "good"
           THEN /\ buf' = buf \o Rows(k) /\ n' = n + 1 /\ last' = k /\ first' = (IF first = -1 THEN k ELSE first) /\ UNCHANGED skipped
           ELSE /\ skipped' = skipped + 1 /\ UNCHANGED <<buf, n, first, last>>
        /\ k' = k + 1 /\ UNCHANGED <<kinds, limit, file, done>>
Finish == k = Total /\ ~done /\ done' = TRUE /\ file' = file \o buf /\ buf' = <<>> /\ UNCHANGED <<kinds, limit, k, n, skipped, first, last>>
Next == Flush \/ Read \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
GoodEvents == {e \in 0..(k - 1) : kinds[e + 1] = "good"}
Held == file \o buf
OneRowEach == /\ Len(Held) = NPix * Cardinality(GoodEvents)
              /\ \A i \in 1..Len(Held) : Held[i][1] \in GoodEvents
              /\ \A i, j \in 1..Len(Held) : i < j => (Held[i][1] < Held[j][1] \/ (Held[i][1] = Held[j][1] /\ Held[i][2] < Held[j][2]))
Counters == n = Cardinality(GoodEvents) /\ n + skipped = k
FirstLast == IF GoodEvents = {} THEN first = -1 /\ last = -1
             ELSE first \in GoodEvents /\ last \in GoodEvents /\ \A e \in GoodEvents : first <= e /\ e <= last
Complete == done => buf = <<>> /\ k = Total
Terminates == <>done
=============================================================================
