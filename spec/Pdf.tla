-------------------------------- MODULE Pdf --------------------------------
(* The probability functions of stats/pdf.py.  TLC has no exponentials; each      *)
(* function is determined by how neighbouring values relate and by its sum:       *)
(*   binom(n, k+1) (k+1) = binom(n, k) (n-k),  binom(n, 0) = 1                    *)
(*   poisson(k+1) (k+1) = poisson(k) mu,  the values sum to 1                     *)
(*   normal: even about the mean, falling away from it, area 1, variance s^2,     *)
(*   and p(i+1) p(i-1) / p(i)^2 the same for every i                              *)
(* A neighbour relation is logged as r = p(k+1) / p(k) in units of 1/R.           *)
EXTENDS Lib, TLC
R == 10000          \* unit of ratios
P == 1000000        \* unit of probabilities

\* n choose k by its recurrence (k <= n, n small)
RECURSIVE Choose_(_, _)
Choose_(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose_(n - 1, k - 1) + Choose_(n - 1, k)
Pascal(row) == [k \in 1..Len(row) + 1 |-> IF k = 1 \/ k = Len(row) + 1 THEN 1 ELSE row[k - 1] + row[k]]
RECURSIVE PascalRow(_)
PascalRow(n) == IF n = 0 THEN <<1>> ELSE Pascal(PascalRow(n - 1))

RECURSIVE SumFrom(_, _)
SumFrom(x, i) == IF i > Len(x) THEN 0 ELSE x[i] + SumFrom(x, i + 1)
Tot(x) == SumFrom(x, 1)
\* |a b - c d| small against the rounding of a ratio a: half a unit times b, and float noise
Tol(b, w) == b + w \div 5000 + 2

PdfInit(cfg) == [n |-> 0]
PdfStep(s, e) ==
  CASE e.op = "choose" ->      \* one row of the triangle, exact
         [s |-> s, c |-> << <<"choose", e.err = "" /\ e.v = PascalRow(e.n)>> >>]
    [] e.op = "choose_ratio" ->  \* any n: ratios at the given k
         [s |-> s, c |-> << <<"choose", e.err = "" /\ Len(e.r) = Len(e.k) /\ e.first = P /\ e.last = P
                                        /\ \A i \in 1..Len(e.k) : Near(e.r[i] * (e.k[i] + 1), (e.n - e.k[i]) * R, Tol(e.k[i] + 1, (e.n - e.k[i]) * R))>> >>]
    [] e.op = "poisson" ->       \* mean m/16; ratios, values from 0 up to where nothing is left; the logarithm says the same
         [s |-> s, c |-> << <<"poisson", e.err = "" /\ \A i \in 1..Len(e.k) :
                                             Near(e.r[i] * (e.k[i] + 1), (e.m * R) \div 16, Tol(e.k[i] + 1, (e.m * R) \div 16))>>,
                            <<"poisson_sum", e.err = "" /\ Near(e.sum, P, 100)>>,
                            <<"poisson_log", e.err = "" /\ \A i \in 1..Len(e.lg) : Near(e.lg[i], R, 50)>> >>]
    [] e.op = "normal" ->        \* p(mean + i s/4) s at i = -28..28, in 1/P
         LET v == e.v
             N == 28
             at(i) == v[i + N + 1]
         IN [s |-> s, c |-> << <<"normal", e.err = "" /\ Len(v) = 2 * N + 1
                  /\ \A i \in 1..N : Near(at(i), at(-i), 60) /\ at(i) <= at(i - 1) + 1 /\ at(i) >= 0>>,
                  <<"normal_area", e.err = "" /\ Len(v) = 2 * N + 1 /\ Near(Tot(v), 4 * P, 1500)>>,
                  <<"normal_width", e.err = "" /\ Len(v) = 2 * N + 1
                        /\ Near(Tot([j \in 1..2 * N + 1 |-> ((j - N - 1) * (j - N - 1) * v[j]) \div 16]), 4 * P, 3000)>>,
                  \* the curve itself: equal second ratios, out into the tails
                  <<"normal_shape", e.err = "" /\ Len(e.q) = 2 * N - 1 /\ \A i \in 1..Len(e.q) : Near(e.q[i], e.q[1], 60)>> >>]
    [] e.op = "xlogy" ->         \* x log y: nothing where x is nothing, and log(y^x) otherwise
         [s |-> s, c |-> << <<"poisson_none", e.zero = <<0, -999999996, -999999996>> >>,       \* a mean of nothing gives nothing
                            <<"xlogy", e.err = "" /\ \A i \in 1..Len(e.t) :
                 LET t == e.t[i] IN IF t.ynan THEN t.v = -999999998
                                    ELSE IF t.x = 0 THEN t.v = 0
                                    ELSE IF t.y = 0 THEN t.v = (IF t.x > 0 THEN -999999996 ELSE 999999997)
                                    \* exp(v / x) = y
                                    ELSE Near(t.back, t.y * 100, 2 + t.y \div 50)>> >>]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
