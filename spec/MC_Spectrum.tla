----------------------------- MODULE MC_Spectrum -----------------------------
(* Layout and configuration laws over all small parameter lists, and the fitter  *)
(* object over all short histories.                                             *)
EXTENDS Spectrum
CONSTANTS MaxP, MaxN, MaxOps
VARIABLES f, g, file, k
Nm == <<"a_", "b", "c_", "d">>
V(x) == [r |-> ToString(x), q |-> x]
Lm(x) == [r |-> ToString(x), lo |-> -x, hi |-> x]
Par(i, m, x, fx) == [name |-> Nm[i], ini |-> V(x), lim |-> Lm(9), fix |-> fx, multi |-> m]
Fitter(n, ms) == [n |-> n, ps |-> [i \in 1..Len(ms) |-> Par(i, ms[i], 1, FALSE)], nb |-> 10, lo |-> 0, hi |-> 80, res |-> <<>>]
Lists == UNION {[1..l -> BOOLEAN] : l \in 1..MaxP}
Init == /\ \E n \in 1..MaxN, ms \in Lists : f = Fitter(n, ms) /\ g = Fitter(n, ms)
        /\ file = <<>> /\ k = 0
Res(x) == [j \in 1..FlatLen(x.ps, x.n) |-> V(10 + j)]
Next == /\ k < MaxOps /\ k' = k + 1
        /\ \/ \E i \in 1..Len(f.ps), m \in BOOLEAN : f' = [Updated(f, <<Par(i, m, 2, TRUE)>>) EXCEPT !.res = <<>>] /\ UNCHANGED <<g, file>>
           \/ file' = Saved(f) /\ UNCHANGED <<f, g>>
           \/ file # <<>> /\ g' = LoadedF(g, file) /\ UNCHANGED <<f, file>>
           \/ f' = [f EXCEPT !.res = Res(f)] /\ UNCHANGED <<g, file>>
           \/ f.res # <<>> /\ \E i \in 0..(f.n - 1) : f' = UpInit(f, i) /\ UNCHANGED <<g, file>>
Spec == Init /\ [][Next]_<<f, g, file, k>>
\* positions are consecutive in declaration order and shared parameters are shared
Layout == LET fl == Flat(f.ps, f.n) IN
  /\ Len(fl) = FlatLen(f.ps, f.n)
  /\ {Pos(f.ps, p, i, f.n) : p \in 1..Len(f.ps), i \in 0..(f.n - 1)} = 0..(Len(fl) - 1)
  /\ \A p, q \in 1..Len(f.ps) : \A i, j \in 0..(f.n - 1) :
        /\ p < q => Pos(f.ps, p, i, f.n) < Pos(f.ps, q, j, f.n)
        /\ (Pos(f.ps, p, i, f.n) = Pos(f.ps, p, j, f.n)) = (i = j \/ ~f.ps[p].multi)
  /\ \A p \in 1..Len(f.ps) : \A i \in 0..(f.n - 1) :
        LET x == fl[Pos(f.ps, p, i, f.n) + 1]
        IN [x EXCEPT !.name = f.ps[p].name] = f.ps[p]
  /\ \A a, b \in 1..Len(fl) : a # b => fl[a].name # fl[b].name
\* loading what was saved reproduces every setting and nothing else
SaveLoad == LET h == LoadedF(g, Saved(f)) IN
  /\ \A i \in 1..Len(f.ps) : h.ps[i] = [f.ps[i] EXCEPT !.multi = g.ps[i].multi]
  /\ LoadedF(f, Saved(f)) = f
  /\ Saved(h) = Saved(f)
=============================================================================
