------------------------------ MODULE MC_Camera ------------------------------
(* Two displays (one patch, one grid) under every sequence of operations: the      *)
(* colour range follows the data exactly while automatic, an explicit range holds   *)
(* until it is reset or replaced, refused images have no effect, displays are       *)
(* independent.                                                                     *)
EXTENDS Camera, Json
CONSTANTS MaxOps, Vals
VARIABLES d, n, ghost, hist
P == <<[row |-> 0, col |-> 0, x |-> 0, y |-> 0, slot |-> 0], [row |-> 0, col |-> 1, x |-> 10, y |-> 0, slot |-> 1]>>
Mk(k) == New([kind |-> k, p |-> P, size |-> 10, nr |-> 1, nc |-> 2, mapped |-> FALSE, up |-> 0])
Init == d = <<Mk("patch"), Mk("grid")>> /\ n = 0 /\ ghost = [i \in 1..2 |-> "none"] /\ hist = <<>>
Images == [1..2 -> Vals]
Positive(im) == \E i \in 1..2 : Finite(im[i]) /\ im[i] > 0
Do(i, st, g, o) == /\ d' = [d EXCEPT ![i] = st] /\ ghost' = [ghost EXCEPT ![i] = g] /\ n' = n + 1 /\ hist' = Append(hist, o)
Next == n < MaxOps /\ \E i \in 1..2 :
    \/ \E im \in Images : (d[i].log => Positive(im)) /\ Do(i, SetImage(d[i], im), ghost[i], [op |-> "image", d |-> i, v |-> im])
    \/ Do(i, SetImage(d[i], <<1>>), ghost[i], [op |-> "image", d |-> i, v |-> <<8>>])
    \/ Do(i, SetLimits(d[i], 4, 12), "set", [op |-> "limits", d |-> i, lo |-> 4, hi |-> 12])
    \/ Do(i, Reset(d[i]), "none", [op |-> "reset", d |-> i])
    \/ d[i].kind = "patch" /\ d[i].has /\ Positive(d[i].img) /\ Do(i, SetLog(d[i]), "none", [op |-> "log", d |-> i])
    \/ d[i].kind = "patch" /\ Do(i, Highlight(d[i], <<2>>, 4), ghost[i], [op |-> "highlight", d |-> i, sel |-> <<2>>, lw |-> 4])
    \/ Do(i, TextAt(d[i], 2, "a"), ghost[i], [op |-> "text", d |-> i, i |-> 2, t |-> "a"])
    \/ d[i].has /\ Do(i, d[i], ghost[i], [op |-> "mutate", d |-> i])
    \/ Do(i, [d[i] EXCEPT !.cbar = TRUE], ghost[i], [op |-> "colorbar", d |-> i])
Spec == Init /\ [][Next]_<<d, n, ghost, hist>>
Follows == \A i \in 1..2 : d[i].auto /\ d[i].has => d[i].lim = DataRange(d[i])
Explicit == \A i \in 1..2 : ghost[i] = "set" => d[i].lim = [k |-> "is", lo |-> 4, hi |-> 12] /\ ~d[i].auto
\* the grid and the patches show the same values
SameValues == \A i \in 1..2 : d[i].kind = "grid" /\ d[i].has => GridShows(d[i])[1] = Masked(d[i].img)
Refuses == [][\A i \in 1..2 : (hist' # hist /\ hist'[Len(hist')].op = "image" /\ hist'[Len(hist')].v = <<8>>) => d' = d]_<<d, n, ghost, hist>>
Apart == [][\A i \in 1..2 : hist' # hist /\ hist'[Len(hist')].d # i => d'[i] = d[i]]_<<d, n, ghost, hist>>
Emit == Len(hist) = MaxOps => PrintT("HIST|" \o ToJson(hist))
View == <<d, n, ghost>>
=============================================================================
