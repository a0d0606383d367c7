---------------------------- MODULE MC_ResPlot ------------------------------
(* The binning loses no point inside its range, the bins are ordered and the    *)
(* averages stay inside them; the curves are ordered as the requirements are.   *)
EXTENDS ResPlot
CONSTANTS MaxN, Xs
VARIABLES f, m
\* a coarse set of edges with the shape of the real ones (growing widths)
Edges == [k \in 1..100 |-> 3277 + (k - 1) * (k - 1) * 10 + (k - 1) * 20]
Init == f = <<>> /\ m = 1
Add == Len(f) < MaxN /\ \E x \in Xs : f' = Append(f, [p |-> 0, x |-> x, y |-> 2 * x]) /\ UNCHANGED m
Grow == m < 24000 /\ m' = m + (IF m < 80 THEN 1 ELSE m \div 20) /\ UNCHANGED f
Next == (m = 1 /\ Add) \/ (f = <<>> /\ Grow)
Spec == Init /\ [][Next]_<<f, m>>
Inside(x) == 32 * x >= Edges[1] /\ 32 * x <= Edges[100]
B == Bins(f, Edges)
Lossless == SumSeq([j \in 1..Len(B) |-> Len(B[j])]) = Len(SelectSeq(f, LAMBDA r : 32 * r.x >= Edges[1]))
Ordered == \A i, j \in 1..Len(B) : i < j => MeanX(B[i]) <= MeanX(B[j])
Within == \A i \in 1..Len(B) : \A j \in 1..Len(B[i]) : \E a \in 1..Len(B[i]) : B[i][a].x <= MeanX(B[i]) + 1
Twice == \A i \in 1..Len(B) : Near(Ratio(B[i]), 2000, 1)
Curves == /\ (Defined("requirement", m) => Curve2("requirement", m) > Curve2("goal", m))
          /\ (Defined("goal", m) => Curve2("goal", m) > Curve2("poisson", m) - 1)
Small == Curve2("poisson", m) <= 4000000
=============================================================================
