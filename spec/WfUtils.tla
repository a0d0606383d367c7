------------------------------ MODULE WfUtils ------------------------------
(* Waveform utilities (utils/waveform.py): rolling baselines, alignment, average  *)
(* waveforms, dead pixels.  Samples are integers; a waveform is wf[pixel][sample]. *)
EXTENDS Lib, TLC

\* ---- rolling baseline: slots of per-pixel sums over the first ns samples
HeadSum(w, ns) == SumSeq([s \in 1..ns |-> w[s]])
HeadSums(wf, ns) == TLCEval([p \in 1..Len(wf) |-> HeadSum(wf[p], ns)])
\* src: the events of the file
BInit(src, nbase, ns, np) ==
    LET nb == Max(Min(nbase, Len(src)), 1)
    IN [nb |-> nb, ns |-> ns, it |-> 0,
        slots |-> TLCEval([k \in 1..nb |-> IF k <= Len(src) THEN HeadSums(src[k], ns) ELSE [p \in 1..np |-> 0]])]
BStep(b, wf) == [b EXCEPT !.slots[(b.it % b.nb) + 1] = HeadSums(wf, b.ns), !.it = @ + 1]
\* nb * ns times the baseline, per pixel
BNum(b) == TLCEval([p \in 1..Len(b.slots[1]) |-> SumSeq([k \in 1..b.nb |-> b.slots[k][p]])])
\* nb * ns times the subtracted waveforms
BSub(b, wf) == LET n == BNum(b)
               IN TLCEval([p \in 1..Len(wf) |-> [s \in 1..Len(wf[p]) |-> wf[p][s] * b.nb * b.ns - n[p]]])

\* ---- alignment
ShiftRow(w, num, fill) == [s \in 1..Len(w) |-> IF s - num \in 1..Len(w) THEN w[s - num] ELSE fill]
ShiftWf(wf, num, fill) == TLCEval([p \in 1..Len(wf) |-> ShiftRow(wf[p], num, fill)])
ColSum(wf) == TLCEval([s \in 1..Len(wf[1]) |-> SumSeq([p \in 1..Len(wf) |-> wf[p][s]])])
Align(wf, t, fill) == ShiftWf(wf, t - ArgMax(ColSum(wf)), fill)
AddWf(a, b) == TLCEval([p \in 1..Len(a) |-> [s \in 1..Len(a[p]) |-> a[p][s] + b[p][s]]])

\* nb * ns * n_events times the per-pixel average
RECURSIVE AvgFrom(_, _, _, _)
AvgFrom(src, k, b, t) ==
    IF k > Len(src) THEN [p \in 1..Len(src[1]) |-> [s \in 1..Len(src[1][1]) |-> 0]]
    ELSE LET b2 == TLCEval(BStep(b, src[k]))
         IN AddWf(Align(BSub(b2, src[k]), t, 0), AvgFrom(src, k + 1, b2, t))
AvgPix(src, t) == AvgFrom(src, 1, BInit(src, 50, 16, Len(src[1])), t)

\* ---- dead pixels: peak of the average below num/den of the mean peak
Peaks(src, n) == TLCEval([p \in 1..Len(src[1]) |-> MaxSeq([s \in 1..Len(src[1][1]) |-> SumSeq([k \in 1..n |-> src[k][p][s]])])])
DeadOk(dead, src, maxev, num, den) ==
    LET n == Min(Len(src), maxev)
        pk == Peaks(src, n)
        np == Len(pk)
        tot == SumSeq(pk)
    IN \A p \in 1..np : LET l == pk[p] * np * den
                            r == num * tot
                        IN (l < r => (p - 1) \in SeqToSet(dead)) /\ (l > r => (p - 1) \notin SeqToSet(dead))

WfUtilsInit(cfg) == [b |-> 0, src |-> cfg.src, np |-> cfg.np, nout |-> 0]
WfUtilsStep(s, e) ==
  CASE e.op = "baseline" ->
       LET b == BInit(s.src, e.nbase, e.ns, s.np)
       IN IF e.err # "" THEN [s |-> s, c |-> << <<"no_error", FALSE>> >>]
          ELSE [s |-> [s EXCEPT !.b = b], c |-> << <<"no_error", TRUE>>, <<"window", e.nb = b.nb>>,
                                                   <<"initial", e.base = BNum(b)>> >>]
    [] e.op = "subtract" ->
       LET b == BStep(s.b, e.wf)
       IN IF e.err # "" THEN [s |-> s, c |-> << <<"no_error", FALSE>> >>]
          ELSE [s |-> [s EXCEPT !.b = b, !.nout = @ + 1],
                c |-> << <<"no_error", TRUE>>, <<"baseline", e.base = BNum(b)>>, <<"subtracted", e.out = BSub(b, e.wf)>>,
                         <<"input_unchanged", e.same>>, <<"earlier_results", e.kept>> >>]
    [] e.op = "shift" ->
       [s |-> s, c |-> << <<"no_error", e.err = "">>, <<"shift", e.err = "" => e.out = ShiftWf(e.wf, e.num, e.fill)>>,
                          <<"input_unchanged", e.same>> >>]
    [] e.op = "align" ->
       [s |-> s, c |-> << <<"no_error", e.err = "">>,
                          <<"align", e.err = "" => (e.out = Align(e.wf, e.t, e.fill))>>,
                          <<"input_unchanged", e.same>> >>]
    [] e.op = "average" ->
       LET a == AvgPix(s.src, e.t)
       IN [s |-> s, c |-> << <<"no_error", e.err = "">>,
                             <<"average_pixel", e.err = "" => e.pix = a>>,
                             <<"average", e.err = "" => e.avg = ColSum(a)>> >>]
    [] e.op = "dead" ->
       [s |-> s, c |-> << <<"no_error", e.err = "">>,
                          <<"dead", e.err = "" => (IsInjectiveSeq(e.dead) /\ DeadOk(e.dead, s.src, e.maxev, e.num, e.den))>> >>]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
