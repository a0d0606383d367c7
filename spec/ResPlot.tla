------------------------------ MODULE ResPlot ------------------------------
(* Charge resolution and charge mean plots (plotting/resolutions.py).          *)
(* A table is a sequence of [p, x, y]: pixel, true charge and value, both in   *)
(* units of 1/1024.  Points are averaged in 99 logarithmic bins between 0.1    *)
(* and the largest charge plotted; e.edges holds the bin edges in units of     *)
(* 1/32768 (a table of constants that goes with the largest charge).           *)
EXTENDS Lib, TLC

U == 1024
Chosen(d, e) == SelectSeq(IF e.pixel = -1 THEN d.camera ELSE d.pixel,
                          LAMBDA r : (IF e.pixel = -1 THEN TRUE ELSE r.p = e.pixel)
                                     /\ (IF d.kind = "mean" THEN TRUE ELSE r.x > 1))   \* 0.001 and less are no charges

\* bin k of 99 holds edges[k] <= x < edges[k+1], the last one its right edge too
InBin(edges, k, x) == edges[k] <= 32 * x /\ (IF k = 99 THEN TRUE ELSE 32 * x < edges[k + 1])
Bins(f, edges) == LET all == TLCEval([k \in 1..99 |-> SelectSeq(f, LAMBDA r : InBin(edges, k, r.x))])
                  IN SelectSeq(all, LAMBDA g : Len(g) > 0)
SumX(g) == SumSeq([j \in 1..Len(g) |-> g[j].x])
SumY(g) == SumSeq([j \in 1..Len(g) |-> g[j].y])
MeanX(g) == RoundDiv(SumX(g), Len(g))
MeanY(g) == RoundDiv(SumY(g), Len(g))
\* the error of a bin: sqrt(sum of e^2)/n with e = 1/sqrt(x); its square in units of 1/100000
Err2(g) == SumSeq([j \in 1..Len(g) |-> RoundDiv(102400000, g[j].x)]) \div (Len(g) * Len(g))
\* a*b/d for products beyond 32 bits
MulDiv(a, b, d) == (a \div d) * b + ((a % d) * b) \div d
\* mean value over mean charge, in units of 1/1000
Ratio(g) == LET sx == SumX(g)
                r == SumY(g) % sx
            IN 1000 * (SumY(g) \div sx) + (IF sx > 1000000 THEN RoundDiv(r, sx \div 1000) ELSE RoundDiv(1000 * r, sx))

\* --- curves: (value * n)^2 in units of 1/1000, n = m/8 photoelectrons
Curve2(name, m) == CASE name = "requirement" -> 2646 + 180 * m + (10 * m * m) \div 64
                     [] name = "goal"        -> 2000 + (15546 * m) \div 100 + (5 * m * m) \div 128
                     [] OTHER                -> 125 * m
Defined(name, m) == CASE name = "requirement" -> m <= 8000 [] name = "goal" -> m <= 16000 [] OTHER -> TRUE
Close(a, b) == Abs(a - b) <= 3 + b \div 1000

NaN == -999999998

\* e.obs[i] for a curve drawn over charges e.ms: (value * n)^2, or the squared ratio to the requirement in units of 1/100000
CurveOk(d, e) ==
    /\ Len(e.obs) = Len(e.ms)
    /\ \A i \in 1..Len(e.ms) :
         LET m == e.ms[i]
             def == Defined(e.name, m) /\ (IF d.kind = "wrr" THEN Defined("requirement", m) ELSE TRUE)
         IN IF ~def THEN e.obs[i] = NaN
            ELSE IF e.obs[i] < 0 THEN FALSE
            ELSE IF d.kind = "wrr"
                 THEN LET r == Curve2("requirement", m)
                      IN Abs(((r \div 1000) * e.obs[i]) \div 100 + ((r % 1000) * e.obs[i]) \div 100000 - Curve2(e.name, m))
                         <= 3 + Curve2(e.name, m) \div 400
                 ELSE Close(e.obs[i], Curve2(e.name, m))

ResPlotInit(cfg) == [plots |-> <<>>]
New(e) == [kind |-> e.kind, pixel |-> <<>>, camera |-> <<>>, lo |-> 0, hi |-> 0, any |-> FALSE]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

ResPlotStep(s, e) ==
  IF e.op = "new" THEN [s |-> [plots |-> Append(s.plots, New(e))], c |-> << <<"no_error", e.err = "">> >>]
  ELSE
  LET d == s.plots[e.k] IN
  CASE e.op = "store" ->
       [ s |-> [plots |-> [s.plots EXCEPT ![e.k] = [d EXCEPT !.pixel = e.pixtab, !.camera = e.camtab]]],
         c |-> << <<"no_error", e.err = "">> >> ]
    [] e.op = "plot" ->
       LET f == Chosen(d, e)
           B == TLCEval(Bins(f, e.edges))
           ok == e.err = "" /\ Len(e.x) = Len(B) /\ Len(e.y) = Len(B)
           mx == TLCEval([j \in 1..Len(B) |-> MeanX(B[j])])
       IN [ s |-> [plots |-> [s.plots EXCEPT ![e.k] =
                     IF Len(B) = 0 THEN d
                     ELSE [d EXCEPT !.lo = IF d.any THEN Min2(@, mx[1]) ELSE mx[1], !.hi = IF d.any THEN Max2(@, mx[Len(B)]) ELSE mx[Len(B)], !.any = TRUE]]],
            c |-> << <<"no_error", e.err = "">>,
                     <<"bins", e.err # "" \/ Len(e.x) = Len(B)>>,
                     <<"charges", ~ok \/ \A j \in 1..Len(B) : Near(e.x[j], mx[j], 1)>>,
                     <<"values", ~ok \/ \A j \in 1..Len(B) :
                         CASE d.kind = "mean" -> Near(e.y[j], Ratio(B[j]), 2)
                           [] d.kind = "wrr" /\ SumX(B[j]) > 1000 * U * Len(B[j]) -> e.y[j] = NaN
                           [] OTHER -> Near(e.y[j], MeanY(B[j]), 2)>>,
                     <<"errors", ~ok \/ (IF d.kind = "mean" THEN TRUE
                         ELSE Len(e.e2) = Len(B) /\ \A j \in 1..Len(B) :
                              IF e.y[j] = NaN THEN TRUE ELSE Abs(e.e2[j] - Err2(B[j])) <= 3 + Err2(B[j]) \div 200)>>,
                     <<"label", e.err # "" \/ e.got = e.label>>,
                     <<"table_kept", e.kept>> >> ]
    [] e.op = "curve" ->
       [ s |-> s, c |-> << <<"no_error", e.err = "">>, <<"curve", e.err # "" \/ CurveOk(d, e)>>, <<"curve_at", e.err # "" \/ e.at>> >> ]
    [] e.op = "finish" ->
       [ s |-> s, c |-> << <<"no_error", e.err = "">>,
                           <<"scales", e.err # "" \/ (e.xlog /\ (d.kind = "res" => e.ylog))>>,
                           <<"unity", e.err # "" \/ d.kind # "mean" \/
                               (e.one /\ Near(e.span[1], d.lo, 1) /\ Near(e.span[2], d.hi, 1))>> >> ]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
