---------------------------- MODULE MC_SpePlot ------------------------------
(* The judgements on displayed numbers: a value shown to three digits accepts    *)
(* exactly its rounding neighbourhood, a standard deviation only itself, a bar   *)
(* chart loses and invents no value.                                             *)
EXTENDS SpePlot
CONSTANTS MaxN, Xs, Shown
VARIABLES v, s
Init == v = <<>> /\ s \in Shown
Next == Len(v) < MaxN /\ \E x \in Xs : v' = Append(v, x) /\ UNCHANGED s
Spec == Init /\ [][Next]_<<v, s>>
\* the deviations of v around a mean m as a bound: |x - mean| <= range
Spread == MaxSeq(v) - MinSeq(v)
SdBounded == v # <<>> /\ Sd(s, v) => s <= Spread + SigUnit(s, 1) + 126
SdZero == v # <<>> /\ Sd(0, v) => Spread <= 125
SdUnique == v # <<>> => \A a, b \in Shown : Sd(a, v) /\ Sd(b, v) => Abs(a - b) <= 2 * SigUnit(Max(a, b), 1) + 250
Exact == Sig3(s, s) /\ ~Sig3(s + SigUnit(s, 1) + 2, s)
\* two bars that share an edge
Two == v # <<>> => LET e == (MinSeq(v) + MaxSeq(v)) \div 2
                       lo == Cardinality({i \in 1..Len(v) : v[i] < e})
                       b == << <<MinSeq(v), e, lo>>, <<e, MaxSeq(v), Len(v) - lo>> >>
                   IN Spread > 10 => Bars(b, v) /\ ~Bars(<<b[1]>>, v) /\ ~Bars(Append(b, b[2]), v)
=============================================================================
