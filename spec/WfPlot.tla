------------------------------- MODULE WfPlot -------------------------------
(* Waveform plots (plotting/waveform.py).  A figure has one panel per module or per  *)
(* pixel; a panel keeps the number of curves drawn into it.  Curves are sequences of *)
(* integers (means in units of one over the number of averaged pixels).              *)
EXTENDS Lib, TLC

Put(f, x, v) == [i \in DOMAIN f \cup {x} |-> IF i = x THEN v ELSE f[i]]
\* ---- geometry: cam[p] = <<row, column>> of pixel p, slot[p] its module
Pixels(c, m) == {p \in 1..Len(c.cam) : c.slot[p] = m}
NMod(c) == Cardinality(SeqToSet(c.slot))
TmRow(c, m) == LET p == CHOOSE p \in Pixels(c, m) : \A q \in Pixels(c, m) : c.cam[p][1] <= c.cam[q][1] IN c.cam[p][1] \div c.side
TmCol(c, m) == LET p == CHOOSE p \in Pixels(c, m) : \A q \in Pixels(c, m) : c.cam[p][2] <= c.cam[q][2] IN c.cam[p][2] \div c.side
\* panels of a figure: <<number, grid row from the top, grid column>>
Panels(c, kind) ==
    IF kind = "tm" THEN [m \in 1..NMod(c) |-> <<m - 1, c.rows \div c.side - 1 - TmRow(c, m - 1), TmCol(c, m - 1)>>]
    ELSE [p \in 1..Len(c.cam) |-> <<p - 1, c.rows - 1 - c.cam[p][1], c.cam[p][2]>>]
\* outlines of a pixel panel: left, right, bottom, top
Outline(c, p) == LET nr == c.rows \div 6
                     nc == c.cols \div 6
                     y == c.cam[p][1]
                     x == c.cam[p][2]
                 IN <<x % nc = 0, x % nc = nc - 1, y % nr = 0, y % nr = nr - 1>>

\* ---- curves
SumOver(wf, S) == TLCEval([s \in 1..Len(wf[1]) |-> SumSeq([p \in 1..Len(wf) |-> IF p \in S THEN wf[p][s] ELSE 0])])
CamSum(wf) == SumOver(wf, 1..Len(wf))
\* dim pixels of a module: peak below num/den of the peak of the camera average; on the line either way
Dim(c, wf, m, num, den, strict) ==
    LET pk == MaxSeq(CamSum(wf))
    IN {p \in Pixels(c, m) : LET l == MaxSeq(wf[p]) * Len(wf) * den
                             IN IF strict THEN l < num * pk ELSE l <= num * pk}
DimOk(c, wf, m, num, den, o) ==
    LET got == {o[i] : i \in 1..Len(o)}
    IN /\ \A i \in 1..Len(o) - 1 : o[i][2] < o[i + 1][2]
       /\ {<<(p - 1) % c.tmpix, p - 1>> : p \in Dim(c, wf, m, num, den, TRUE)} \subseteq got
       /\ got \subseteq {<<(p - 1) % c.tmpix, p - 1>> : p \in Dim(c, wf, m, num, den, FALSE)}
MinAll(wf) == LET S == UNION {Range(wf[p]) : p \in 1..Len(wf)} IN CHOOSE m \in S : \A x \in S : m <= x
MaxAll(wf) == LET S == UNION {Range(wf[p]) : p \in 1..Len(wf)} IN CHOOSE m \in S : \A x \in S : x <= m
\* shade of a pixel panel: 256 steps between the lowest and the highest peak
ShadeOk(wf, p, i) == LET pk == [q \in 1..Len(wf) |-> MaxSeq(wf[q])]
                         lo == MinSeq(pk)
                         hi == MaxSeq(pk)
                         k == IF hi = lo THEN 0 ELSE (256 * (pk[p] - lo)) \div (hi - lo)
                     IN Abs(i - Min(k, 255)) <= 1

\* f: [kind, c, n (curves per panel), hl (highlighted: colour per pixel)]
PlotInit(cfg) == [cams |-> cfg.cams, f |-> [i \in {} |-> 0]]
Ids(f) == IF f.kind = "tm" THEN NMod(f.c) ELSE Len(f.c.cam)
Spines(f, p) == IF f.hl[p] = "" THEN <<Outline(f.c, p), "black", 10>> ELSE <<<<TRUE, TRUE, TRUE, TRUE>>, f.hl[p], 100>>
Others(s, e, k) == \A i \in DOMAIN s.f : i = k \/ e.total[i] = s.f[i].n
TmPanel(f, e, o, m) ==
    << <<"waveforms", o.curves = [i \in 1..f.c.tmpix |-> e.wf[(m - 1) * f.c.tmpix + i]]>>,
       <<"colours", o.asic = [i \in 1..f.c.tmpix |-> (i - 1) \div 16]>>,
       <<"averages", o.means = <<CamSum(e.wf), SumOver(e.wf, Pixels(f.c, m - 1))>> >>,
       <<"dim", DimOk(f.c, e.wf, m - 1, e.num, e.den, o.dim)>>,
       \* the outer panels may grow with their tick marks; nothing may be cut off
       <<"limits", o.lim[1] <= 0 /\ o.lim[2] >= Len(e.wf[1]) /\ o.lim[3] <= MinAll(e.wf) /\ o.lim[4] >= MaxAll(e.wf)>> >>
PixPanel(f, e, o, p) ==
    << <<"waveforms", o.curves = <<e.wf[p]>> >>, <<"averages", o.means = <<CamSum(e.wf)>> >>, <<"colours", ShadeOk(e.wf, p, o.shade)>>,
       <<"limits", o.lim = <<0, Len(e.wf[1]), MinAll(e.wf), MaxAll(e.wf)>> >> >>
PlotStep(s, e) ==
  IF e.err # "" THEN [s |-> s, c |-> << <<"no_error", FALSE>> >>]
  ELSE CASE e.op = "new" ->
         LET c == s.cams[e.cam]
             pn == Panels(c, e.kind)
             f == [kind |-> e.kind, c |-> c, n |-> [i \in 1..Len(pn) |-> 0], hl |-> [i \in 1..Len(pn) |-> ""]]
         IN [s |-> [s EXCEPT !.f = Put(s.f, e.k, f)],
             c |-> << <<"no_error", TRUE>>, <<"panels", e.panels = pn>>,
                      <<"labels", e.labels = IF e.kind = "tm" THEN [i \in 1..Len(pn) |-> <<i - 1>>]
                                             ELSE [i \in 1..Len(pn) |-> <<i - 1, (i - 1) \div c.tmpix, (i - 1) % c.tmpix>>]>>,
                      <<"outlines", e.kind = "pixel" => \A p \in 1..Len(pn) : e.spines[p][1] = Outline(c, p)>> >>]
       [] e.op = "plot" ->
         LET f == s.f[e.k]
             add == IF f.kind = "tm" THEN f.c.tmpix + 2 ELSE 2
             g == [f EXCEPT !.n = [i \in 1..Len(f.n) |-> f.n[i] + add]]
         IN [s |-> [s EXCEPT !.f[e.k] = g],
             c |-> << <<"no_error", Len(e.obs) = Len(f.n)>>, <<"other_figures", Others(s, e, e.k) /\ e.total[e.k] = g.n>> >>
                   \o Concat([i \in 1..Len(e.obs) |-> IF f.kind = "tm" THEN TmPanel(f, e, e.obs[i], i) ELSE PixPanel(f, e, e.obs[i], i)])]
       [] e.op \in {"highlight", "reset"} ->
         LET f == s.f[e.k]
             hl == IF e.op = "reset" THEN [p \in 1..Len(f.hl) |-> ""] ELSE [p \in 1..Len(f.hl) |-> IF e.mask[p] THEN e.colour ELSE f.hl[p]]
             g == [f EXCEPT !.hl = hl]
         IN [s |-> [s EXCEPT !.f[e.k] = g],
             c |-> << <<"no_error", TRUE>>, <<"highlight", \A p \in 1..Len(hl) : e.spines[p] = Spines(g, p)>>, <<"other_figures", Others(s, e, 0)>> >>]
       [] e.op = "single" ->
         [s |-> s, c |-> << <<"no_error", TRUE>>, <<"curve", e.xy = [i \in 1..Len(e.lines) |-> <<IF e.lines[i].x = <<>> THEN [j \in 1..Len(e.lines[i].y) |-> j - 1] ELSE e.lines[i].x,
                                                                                      e.lines[i].y, e.lines[i].label>>]>>,
                            <<"axes", e.axes = <<e.title, IF e.tunits = "" THEN "Time" ELSE "Time (" \o e.tunits \o ")",
                                                IF e.units = "" THEN "Amplitude" ELSE "Amplitude (" \o e.units \o ")">> >>,
                            <<"saved", e.saved /\ e.closed>> >>]
       [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
