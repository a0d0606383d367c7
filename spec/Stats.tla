------------------------------- MODULE Stats -------------------------------
(* Streaming statistics: Welford streams (stats/welfords.py), charge resolution   *)
(* and charge statistics (utils/resolutions.py).  The state holds everything      *)
(* contributed so far; every observation must equal the batch definition on it.   *)
EXTENDS Lib, TLC

\* ---- Welford streams: st[k] = [n, s (sum), q (sum of squares)], samples relative to the stream's base
Feed(x, v) == [n |-> x.n + 1, s |-> x.s + v, q |-> x.q + v * v]
\* n times the sum of squared deviations from the mean
M2n(x) == x.n * x.q - x.s * x.s
\* observed: mean in 1/1000, m2 in 1/10
WelfordOk(x, e) == << <<"count", e.count = x.n>>,
                      <<"mean", Abs(e.mean * x.n - 1000 * x.s) <= 2 * x.n>>,
                      <<"m2", Abs(e.m2 * x.n - 10 * M2n(x)) <= 2 * x.n>> >>

\* ---- contributions <<pixel, x, y>>: x = twice the true charge (resolution) or the amplitude
\* (statistics), y = twice the measured charge or ten times the charge
Keys(c) == {<<c[i][1], c[i][2]>> : i \in 1..Len(c)}
CKeys(c) == {c[i][2] : i \in 1..Len(c)}
SelP(c, p, x) == SelectSeq(c, LAMBDA r : r[1] = p /\ r[2] = x)
SelC(c, x) == SelectSeq(c, LAMBDA r : r[2] = x)
Dev(g) == SumSeq([i \in 1..Len(g) |-> (g[i][3] - g[i][2]) * (g[i][3] - g[i][2])])   \* 4 * sum of squared deviations
S1(g) == SumSeq([i \in 1..Len(g) |-> g[i][3]])
S2(g) == SumSeq([i \in 1..Len(g) |-> g[i][3] * g[i][3]])
\* n^2 times the variance, taken about the first value (large values with a small spread stay small)
Var2(g) == LET d == [i \in 1..Len(g) |-> <<0, 0, g[i][3] - g[1][3]>>]
           IN Len(g) * S2(d) - S1(d) * S1(d)
NonZero(c) == SelectSeq(c, LAMBDA r : r[2] # 0)

\* one row of the resolution result: n, sum (in 1/4), squared absolute and relative resolution (in 1/100)
ResRow(g, mc, r) ==
    LET n == Len(g)
        x == g[1][2]
        v == Dev(g) + (IF mc THEN 2 * n * x ELSE 0)
    IN /\ r.n = n
       /\ r.sum = Dev(g)
       /\ r.abs2 >= 0 /\ Abs(r.abs2 * 4 * n - 100 * v) <= 8 * n
       /\ r.rel2 >= 0 /\ Abs(r.rel2 * n * x * x - 100 * v) <= 2 * n * x * x
\* one row of the statistics result: n, sum (in 1/10), sum2 (in 1/100), mean (in 1/1000), variance (in 1/100)
StatRow(g, r) ==
    LET n == Len(g)
    IN /\ r.n = n
       /\ r.sum = S1(g)
       /\ r.sum2 = S2(g)
       /\ Abs(r.mean * n - 100 * S1(g)) <= 2 * n
       /\ r.var >= 0 /\ Abs(r.var * n * n - Var2(g)) <= n * n
ResOk(c0, mc, e) ==
    LET c == TLCEval(NonZero(c0))
    IN << <<"keys", Len(e.pix) = Cardinality(Keys(c)) /\ {<<e.pix[i].pixel, e.pix[i].x>> : i \in 1..Len(e.pix)} = Keys(c)>>,
          <<"resolution_pixel", \A i \in 1..Len(e.pix) : LET g == TLCEval(SelP(c, e.pix[i].pixel, e.pix[i].x)) IN g # <<>> /\ ResRow(g, mc, e.pix[i])>>,
          <<"keys", Len(e.cam) = Cardinality(CKeys(c)) /\ {e.cam[i].x : i \in 1..Len(e.cam)} = CKeys(c)>>,
          <<"resolution_camera", \A i \in 1..Len(e.cam) : LET g == TLCEval(SelC(c, e.cam[i].x)) IN g # <<>> /\ ResRow(g, mc, e.cam[i])>> >>
StatOk(c, e) ==
       << <<"keys", Len(e.pix) = Cardinality(Keys(c)) /\ {<<e.pix[i].pixel, e.pix[i].x>> : i \in 1..Len(e.pix)} = Keys(c)>>,
          <<"statistics_pixel", \A i \in 1..Len(e.pix) : LET g == TLCEval(SelP(c, e.pix[i].pixel, e.pix[i].x)) IN g # <<>> /\ StatRow(g, e.pix[i])>>,
          <<"keys", Len(e.cam) = Cardinality(CKeys(c)) /\ {e.cam[i].x : i \in 1..Len(e.cam)} = CKeys(c)>>,
          <<"statistics_camera", \A i \in 1..Len(e.cam) : LET g == TLCEval(SelC(c, e.cam[i].x)) IN g # <<>> /\ StatRow(g, e.cam[i])>> >>

StatsInit(cfg) == [w |-> [k \in 1..cfg.streams |-> [n |-> 0, s |-> 0, q |-> 0]],
                   r |-> [k \in 1..Len(cfg.mc) |-> <<>>], mc |-> cfg.mc,
                   t |-> [k \in 1..cfg.stat |-> <<>>]]
StatsStep(s, e) ==
  IF e.err # "" THEN [s |-> s, c |-> << <<"no_error", FALSE>> >>]
  ELSE CASE e.op = "sample" ->
         LET x == Feed(s.w[e.k], e.v) IN [s |-> [s EXCEPT !.w[e.k] = x], c |-> << <<"no_error", TRUE>> >> \o WelfordOk(x, e)]
    [] e.op = "add" ->
         [s |-> IF e.cls = "res" THEN [s EXCEPT !.r[e.k] = TLCEval(@ \o e.rows)] ELSE [s EXCEPT !.t[e.k] = TLCEval(@ \o e.rows)],
          c |-> << <<"no_error", TRUE>>, <<"earlier_results", e.kept>> >>]
    [] e.op = "finish" ->
         [s |-> s, c |-> << <<"no_error", TRUE>>, <<"earlier_results", e.kept>> >> \o (IF e.cls = "res" THEN ResOk(s.r[e.k], s.mc[e.k], e) ELSE StatOk(s.t[e.k], e))]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
