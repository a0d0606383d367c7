------------------------------- MODULE MC_DL1 -------------------------------
(* All ways of addressing a file agree with its table: for every file within the *)
(* bounds (any order of event numbers) and every list of event numbers.            *)
EXTENDS DL1
CONSTANTS MaxEv, MaxPix, MaxList
VARIABLES f, l, n
Files == UNION {{[ev |-> e, np |-> p] : e \in {q \in [1..k -> 0..MaxEv] : IsInjectiveSeq(q)}, p \in 1..MaxPix} : k \in 0..MaxEv}
Init == f \in Files /\ l = <<>> /\ n \in 0..4
Next == Len(l) < MaxList /\ \E x \in 0..MaxEv : l' = Append(l, x) /\ UNCHANGED <<f, n>>
Spec == Init /\ [][Next]_<<f, l, n>>
Tab == Rows(f, 0, NRows(f))
FramesOf(k) == Frames(f, [kind |-> k, n |-> n, list |-> l])
\* iterating over events, rows or chunks of any size gives the table
Complete == \A k \in {"events", "rows", "chunks"} : Concat(FramesOf(k)) = Tab
ChunkSize == n > 0 => \A i \in 1..Len(FramesOf("chunks")) : Len(FramesOf("chunks")[i]) <= n
\* an event is found by its number at the position it holds, and is exactly its rows
ByNumber == \A x \in SeqToSet(f.ev) : Event(f, PosOf(f, x)) = SelectSeq(Tab, LAMBDA r : r[1] = x)
\* a selection is the table restricted to the listed events, each once, in file order
Selection == Concat(FramesOf("selected")) = SelectSeq(Tab, LAMBDA r : r[1] \in SeqToSet(l))
OnePerPixel == \A j \in 1..NEv(f) : [i \in 1..f.np |-> Event(f, j - 1)[i][2]] = [i \in 1..f.np |-> i - 1]
=============================================================================
