------------------------------ MODULE SpePlot ------------------------------
(* Single-photoelectron spectrum plots: the spectrum figure                     *)
(* (plotting/spe.py), the program that plots a fit file (scripts/plot_spe.py)   *)
(* and the plot mode of the extraction (scripts/extract_spe.py).                *)
(* All numbers are in units of 1/1000.  A fit is [names, vals, errs, x, hy,     *)
(* edges, fx, fy, init]: hy[i] and fy[i] belong to illumination i-1, init is a  *)
(* sequence of <<name, value>>.                                                 *)
EXTENDS Lib, TLC

NaN == -999999998
Keys(pairs) == {pairs[i][1] : i \in 1..Len(pairs)}
At(pairs, k) == pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = k][2]
Pos(names, k) == CHOOSE i \in 1..Len(names) : names[i] = k

\* a number shown with three significant digits: the largest error it may have
RECURSIVE SigUnit(_, _)
SigUnit(v, p) == IF v < 1000 * p THEN p ELSE SigUnit(v, 10 * p)
Sig3(obs, v) == Abs(obs - v) <= (SigUnit(Abs(v), 1) + 1) \div 2 + 1

LambdaName(i) == "lambda_" \o ToString(i)

\* --- the spectrum figure.  o: [steps, lines, hcol, lcol, legend, rows, cells]
Steps(f, i) == [k \in 1..Len(f.hy[i]) |-> <<f.edges[k], f.edges[k + 1], f.hy[i][k]>>]
SameSteps(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : \A j \in 1..3 : Near(a[k][j], b[k][j], 1)
Histograms(o, f, n) == Len(o.steps) = n /\ \A i \in 1..n : SameSteps(o.steps[i], Steps(f, i))
Curves(o, f, n) == Len(o.lines) = n /\ \A i \in 1..n : NearSeq(o.lines[i].x, f.fx, 1) /\ NearSeq(o.lines[i].y, f.fy[i], 1) /\ o.lines[i].n = f.nfit
Colours(o, n) == /\ Len(o.hcol) = n /\ Len(o.lcol) = n
                 /\ \A i, j \in 1..n : (o.hcol[i] = o.lcol[j]) = (i = j)
Legend(o, f, n) == Len(o.legend) = n /\ \A i \in 1..n :
    LET p == Pos(f.names, LambdaName(i - 1))
        t == o.legend[i]
    IN Len(t) = 3 /\ t[1] = i - 1 /\ Near(t[2], f.vals[p], 1) /\ Near(t[3], f.errs[p], 1)
Rows(o, f) == o.rows = f.names
Fitted(o, f) == Len(o.cells) = Len(f.names) /\ \A r \in 1..Len(f.names) :
    Len(o.cells[r]) = 3 /\ Near(o.cells[r][2], f.vals[r], 1) /\ Near(o.cells[r][3], f.errs[r], 1)
Initials(o, f) == Len(o.cells) = Len(f.names) /\ \A r \in 1..Len(f.names) :
    Len(o.cells[r]) = 3 /\ Sig3(o.cells[r][1], At(f.init, f.names[r]))

Figure(o, f, n, ok) ==
    << <<"histograms", ~ok \/ Histograms(o, f, n)>>, <<"curves", ~ok \/ Curves(o, f, n)>>,
       <<"colours", ~ok \/ n > 8 \/ Colours(o, n)>>, <<"legend", ~ok \/ Legend(o, f, n)>>,
       <<"rows", ~ok \/ Rows(o, f)>>, <<"fitted", ~ok \/ Fitted(o, f)>>, <<"initials", ~ok \/ Initials(o, f)>> >>

\* --- a fit file: [n, fitter, pixels: sequence of fits (pixel k-1), init]
Fit(file, p) == LET g == file.pixels[p + 1] IN
    [names |-> file.names, vals |-> g.vals, errs |-> g.errs, x |-> g.x, hy |-> g.hy, edges |-> g.edges, fx |-> g.fx, fy |-> g.fy, nfit |-> g.nfit, init |-> file.init]
Column(file, c) == [p \in 1..Len(file.pixels) |-> file.pixels[p].vals[c]]
ColumnErr(file, c) == [p \in 1..Len(file.pixels) |-> file.pixels[p].errs[c]]
Title(file, p) == file.fitter \o ", " \o ToString(file.n) \o " Illuminations, Pixel=" \o ToString(p)

\* names of the plots of a file
Plots(file, p) == {"camera_" \o c \o ".pdf" : c \in SeqToSet(file.names)} \cup {"hist_" \o c \o ".pdf" : c \in SeqToSet(file.names)}
                  \cup {"spectrum_p" \o ToString(p) \o ".pdf"}

\* bars [lo, hi, count]: every value is in exactly one bar and every bar counts its own values (values at an edge may lie on either side)
Inside(v, b) == {i \in 1..Len(v) : v[i] > b[1] + 1 /\ v[i] < b[2] - 1}
Around(v, b) == {i \in 1..Len(v) : v[i] >= b[1] - 1 /\ v[i] <= b[2] + 1}
Bars(bars, v) == /\ SumSeq([k \in 1..Len(bars) |-> bars[k][3]]) = Len(v)
                 /\ \A k \in 1..Len(bars) : Cardinality(Inside(v, bars[k])) <= bars[k][3] /\ bars[k][3] <= Cardinality(Around(v, bars[k]))
Mean(v) == RoundDiv(SumSeq(v), Len(v))
\* the standard deviation s shown against n*sum(x^2)-(sum x)^2 with x in units of 1/8
Sd(s, v) == LET n == Len(v)
                m == Mean(v) \div 125
                x == TLCEval([i \in 1..n |-> RoundDiv(v[i], 125) - m])
                V == n * SumSeq([i \in 1..n |-> x[i] * x[i]]) - SumSeq(x) * SumSeq(x)
                t == IF \A i \in 1..n : v[i] % 125 = 0 THEN 0 ELSE n
                h == (SigUnit(s, 1) + 1) \div 2 + 1
                lo == ((s - h) * 8 * n) \div 1000 - t
                hi == ((s + h) * 8 * n) \div 1000 + 1 + t
            IN s >= 0 /\ (lo <= 0 \/ lo * lo <= V) /\ V <= hi * hi

\* --- extraction: initial values of the parameters, the configuration's first
Initial(e, p) == IF p[1] \in Keys(e.conf) THEN At(e.conf, p[1]) ELSE p[2]
InitOf(e) == Concat([i \in 1..Len(e.params) |->
    IF e.params[i][1] = "lambda_" THEN [k \in 1..e.nill |-> <<LambdaName(k - 1), Initial(e, e.params[i])>>]
    ELSE << <<e.params[i][1], Initial(e, e.params[i])>> >>])

SpePlotInit(cfg) == [files |-> <<>>]

SpePlotStep(s, e) ==
  LET ok == e.err = "" IN
  CASE e.op = "plot" ->
       [ s |-> s, c |-> << <<"no_error", ok>>, <<"inputs_kept", e.kept>> >> \o Figure(e.o, e.fit, e.n, ok) ]
    [] e.op = "write" -> [ s |-> [files |-> Append(s.files, e.file)], c |-> << <<"no_error", ok>> >> ]
    [] e.op = "extract" ->
       [ s |-> [files |-> Append(s.files, e.file)],
         c |-> << <<"no_error", ok>>,
                  <<"file_initials", ~ok \/ (Keys(e.file.init) = Keys(InitOf(e)) /\ \A k \in Keys(InitOf(e)) : At(e.file.init, k) = At(InitOf(e), k))>>,
                  <<"file_about", ~ok \/ (e.file.n = e.nill /\ e.file.fitter = e.fitter /\ Len(e.file.pixels) = e.npix)>> >> ]
    [] e.op = "peek" ->
       LET f == s.files[e.f] IN
       [ s |-> s, c |-> << <<"no_error", ok>>, <<"one_figure", ~ok \/ e.shown = 1>>, <<"titles", ~ok \/ e.title = Title(f, e.pixel)>> >>
                        \o SelectSeq(Figure(e.o, Fit(f, e.pixel), f.n, ok), LAMBDA c : c[1] # "legend") ]   \* shown without a legend
    [] e.op = "show" ->
       LET f == s.files[e.f]
           names == {e.saved[i].name : i \in 1..Len(e.saved)}
           all == ok /\ names = Plots(f, e.pixel) /\ Len(e.saved) = Cardinality(names)
           The(nm) == e.saved[CHOOSE i \in 1..Len(e.saved) : e.saved[i].name = nm]
           Cam(c) == The("camera_" \o f.names[c] \o ".pdf")
           Hst(c) == The("hist_" \o f.names[c] \o ".pdf")
           spc == The("spectrum_p" \o ToString(e.pixel) \o ".pdf")
           C == 1..Len(f.names)
       IN
       [ s |-> s,
         c |-> << <<"no_error", ok>>, <<"plots", ~ok \/ all>>,
                  <<"in_directory", ~ok \/ e.dir>>, <<"file_kept", e.kept>>, <<"closed", ~ok \/ e.left = 0>>,
                  <<"camera_values", ~all \/ \A c \in C : Len(Cam(c).images) = 2 /\ NearSeq(Cam(c).images[1], Column(f, c), 1)>>,
                  <<"camera_errors", ~all \/ \A c \in C : Len(Cam(c).images) = 2 /\ NearSeq(Cam(c).images[2], ColumnErr(f, c), 1)>>,
                  <<"bars", ~all \/ \A c \in C : Bars(Hst(c).bars, Column(f, c))>>,
                  <<"mean", ~all \/ \A c \in C : Len(Hst(c).stats) = 2 /\ Sig3(Hst(c).stats[1], Mean(Column(f, c)))>>,
                  <<"stddev", ~all \/ \A c \in C : Len(Hst(c).stats) = 2 /\ Sd(Hst(c).stats[2], Column(f, c))>>,
                  <<"titles", ~all \/ (spc.title = Title(f, e.pixel) /\ \A c \in C : Cam(c).title = f.names[c] /\ Hst(c).title = f.names[c])>> >>
               \o (IF all THEN Figure(spc.o, Fit(f, e.pixel), f.n, TRUE) ELSE <<>>) ]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
