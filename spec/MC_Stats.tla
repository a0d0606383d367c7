------------------------------ MODULE MC_Stats ------------------------------
(* The streaming algorithms as state machines, against the batch definitions.     *)
(* (1) Welford's update in exact rational arithmetic: mean = mn/md, m2 = qn/qd.   *)
(* (2) Contributions buffered in a list and combined at arbitrary points.         *)
EXTENDS Stats
CONSTANTS Vals, MaxN, Pix, Xs, MaxC
VARIABLES x, mean, m2, log, pend, df, gone
vars == <<x, mean, m2, log, pend, df, gone>>
\* rationals as <<num, den>>, den > 0; not reduced (bounds are small)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(r) == LET g == Gcd(Abs(r[1]), r[2]) IN IF g = 0 THEN r ELSE <<Sign(r[1]) * (Abs(r[1]) \div g), r[2] \div g>>
RAdd(a, b) == Red(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
RSub(a, b) == Red(<<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>)
RMul(a, b) == Red(<<a[1] * b[1], a[2] * b[2]>>)
Init == /\ x = [n |-> 0, s |-> 0, q |-> 0] /\ mean = <<0, 1>> /\ m2 = <<0, 1>>
        /\ log = <<>> /\ pend = <<>> /\ df = {} /\ gone = FALSE
Sample(v) == /\ x.n < MaxN
             /\ LET d == RSub(<<v, 1>>, mean)
                    mn == RAdd(mean, RMul(d, <<1, x.n + 1>>))
                    d2 == RSub(<<v, 1>>, mn)
                IN mean' = mn /\ m2' = RAdd(m2, RMul(d, d2))
             /\ x' = Feed(x, v)
             /\ UNCHANGED <<log, pend, df, gone>>
\* df: set of [p, x, n, sum]; combining groups the list into it
Group(rows) == {[p |-> k[1], x |-> k[2], n |-> Len(SelP(rows, k[1], k[2])), sum |-> Dev(SelP(rows, k[1], k[2]))] : k \in Keys(rows)}
Merge(a, b) == {[p |-> k[1], x |-> k[2],
                 n |-> SumSeq([i \in 1..2 |-> LET s == {r \in <<a, b>>[i] : r.p = k[1] /\ r.x = k[2]} IN IF s = {} THEN 0 ELSE (CHOOSE r \in s : TRUE).n]),
                 sum |-> SumSeq([i \in 1..2 |-> LET s == {r \in <<a, b>>[i] : r.p = k[1] /\ r.x = k[2]} IN IF s = {} THEN 0 ELSE (CHOOSE r \in s : TRUE).sum])]
                : k \in {<<r.p, r.x>> : r \in a \cup b}}
Add(p, xx, y) == /\ Len(log) < MaxC /\ x.n = 0
                 /\ log' = Append(log, <<p, xx, y>>) /\ pend' = Append(pend, <<p, xx, y>>)
                 /\ UNCHANGED <<x, mean, m2, df, gone>>
Combine == /\ pend # <<>>
           /\ df' = Merge(df, Group(pend)) /\ pend' = <<>>
           /\ UNCHANGED <<x, mean, m2, log, gone>>
\* asking for the result drops entries of zero true charge from the combined table
Finish == /\ log # <<>>
          /\ df' = {r \in Merge(df, Group(pend)) : r.x # 0} /\ pend' = <<>> /\ gone' = TRUE
          /\ UNCHANGED <<x, mean, m2, log>>
Next == (\E v \in Vals : log = <<>> /\ Sample(v)) \/ (\E p \in Pix, xx \in Xs, y \in Vals : Add(p, xx, y)) \/ Combine \/ Finish
Spec == Init /\ [][Next]_vars
WelfordExact == x.n > 0 => /\ mean[1] * x.n = x.s * mean[2]
                           /\ m2[1] * x.n = M2n(x) * m2[2]
Streaming == {r \in Merge(df, Group(pend)) : r.x # 0} = Group(NonZero(log))
=============================================================================
