------------------------------ MODULE Extract ------------------------------
(* DL1 extraction (scripts/extract_dl1.py): from a waveform file to a DL1 file.      *)
(*                                                                                   *)
(* The machine goes through the file event by event: a stale event or one with       *)
(* missing packets is counted and leaves nothing; every other event is time-         *)
(* calibrated (measured data only), its rolling baseline is updated and subtracted,  *)
(* the columns are extracted and one row per pixel is appended.  Values are in units *)
(* of 1/(den * 16 * nb): den the denominator of the time corrections, nb the length  *)
(* of the rolling baseline.                                                          *)
EXTENDS WfUtils
C == INSTANCE Calib

\* samples of event k, pixel p (from 0), sample s (from 0)
Base(f, k) == (k * f.drift) % 40
Sample(f, k, p, s) == f.ped + Base(f, k) + ((k * 37 + p * 11 + s * 3 + ((p * s) % 5)) % 25)
                      + (IF s = (f.at + k + p) % f.ns THEN f.amp * ((k + p) % 4) ELSE 0)
                      + (IF k >= f.bigfrom THEN f.big ELSE 0)
Wf(f, k) == TLCEval([p \in 1..f.np |-> [s \in 1..f.ns |-> Sample(f, k, p - 1, s - 1)]])
ScaleWf(wf, d) == TLCEval([p \in 1..Len(wf) |-> [s \in 1..Len(wf[p]) |-> d * wf[p][s]]])
Limited(f, max) == IF max > 0 THEN Min(max, Len(f.events)) ELSE Len(f.events)
Good(v) == ~(v.stale \/ v.missing)

\* ---- the machine: x = [k, b, rows (one group per processed event), skipped]
Calibrated(f, a, k) == IF f.sim THEN ScaleWf(Wf(f, k), f.den) ELSE C!TimeWf(Wf(f, k), a, f.den)
XStart(f, n) == [k |-> 0, b |-> BInit([k \in 1..Min(50, n) |-> ScaleWf(Wf(f, k - 1), f.den)], Max(Min(50, n), 1), 16, f.np), rows |-> <<>>, skipped |-> 0]
Columns(f, sub, b) ==
    TLCEval([waveform_max |-> [p \in 1..f.np |-> MaxSeq(sub[p])],
             waveform_mean |-> [p \in 1..f.np |-> SumSeq(sub[p])],
             baseline_start_mean |-> [p \in 1..f.np |-> HeadSum(sub[p], Min(20, f.ns))],
             vf_argmax |-> [p \in 1..f.np |-> ArgMax(sub[p])],
             baseline_subtracted |-> BNum(b)])
XEvent(f, a, x) ==
    LET v == f.events[x.k + 1]
    IN IF ~Good(v) THEN [x EXCEPT !.k = @ + 1, !.skipped = @ + 1]
       ELSE LET w == Calibrated(f, a, x.k)
                b == TLCEval(BStep(x.b, w))
            IN [x EXCEPT !.k = @ + 1, !.b = b, !.rows = Append(@, [ev |-> x.k + 1, col |-> Columns(f, BSub(b, w), b)])]
RECURSIVE XRun(_, _, _, _)
XRun(f, a, x, n) == IF x.k = n THEN x ELSE XRun(f, a, TLCEval(XEvent(f, a, x)), n)

\* ---- what a DL1 file must hold
Close(o, v) == Abs(o - v) <= 1 + Abs(v) \div 1000000
RowsOk(f, g, o) ==          \* identity of the rows
    /\ Len(o.iev) = Len(g) * f.np
    /\ \A i \in 1..Len(o.iev) : LET j == (i - 1) \div f.np + 1
                               IN o.iev[i] = g[j].ev - 1 /\ o.pixel[i] = (i - 1) % f.np
DetailsOk(f, g, o) ==
    Len(o.ev) = Len(g) /\ \A j \in 1..Len(g) :
       LET v == f.events[g[j].ev]
       IN o.ev[j] = [t |-> v.t, tack |-> v.tack, fci |-> v.fci, same |-> TRUE]
ValueOk(f, g, o, c) ==
    Len(o.col[c]) = Len(g) * f.np /\ \A j \in 1..Len(g) : \A p \in 1..f.np : Close(o.col[c][(j - 1) * f.np + p], g[j].col[c][p])
TrueOk(f, g, o) ==
    IF f.sim THEN Len(o.mc) = Len(g) * f.np /\ \A j \in 1..Len(g) : \A p \in 1..f.np : o.mc[(j - 1) * f.np + p] = g[j].ev * 3000 + p - 1
    ELSE o.mc = <<>>
Times(f, g) == IF g = <<>> THEN << <<>>, <<>> >> ELSE <<f.events[g[1].ev].t, f.events[g[Len(g)].ev].t>>
Counts(f, x) == [n_events |-> Len(x.rows), n_skipped |-> x.skipped]
SimTables(f, g) == IF ~f.sim THEN << <<>>, <<>>, <<>> >>
                   ELSE << [j \in 1..Len(g) |-> f.events[g[j].ev].mc], [j \in 1..Len(g) |-> f.events[g[j].ev].pointing], f.header >>
\* names of the files made automatically; a file is never made over its input
AutoName(suffix, o) == CASE suffix = "_r1.tio" -> o = "_dl1.h5" [] suffix = ".tio" -> o = ".h5" [] suffix = ".simtel.gz" -> o = "_dl1.h5" [] OTHER -> o # suffix
Dtypes(f, o) == /\ o.iev = "u4" /\ o.pixel = "u4" /\ o.first_cell_id = "u2" /\ o.t_tack = "u8" /\ o.t_cpu = "M8[ns]"
                /\ (f.sim => o.mc_true = "u4") /\ \A c \in DOMAIN o \cap {"waveform_max", "waveform_mean", "baseline_start_mean", "baseline_subtracted"} : o[c] = "f4"
Fixed == {"iev", "pixel", "t_cpu", "t_tack", "first_cell_id", "baseline_subtracted"}

\* everything about one DL1 file
OutOk(f, a, cf, cam, o, n, auto) ==
    LET x == TLCEval(XRun(f, a, XStart(f, n), n))
        g == x.rows
        some == g # <<>>
        judged == {"waveform_max", "waveform_mean", "baseline_start_mean", "vf_argmax", "baseline_subtracted"}
        cols == SeqToSet(o.cols)
    IN << <<"name", IF auto THEN AutoName(f.suffix, o.name) ELSE o.name = "given">>,
          <<"rows", IF some THEN RowsOk(f, g, o) ELSE o.iev = <<>> >>,
          <<"details", some => DetailsOk(f, g, o)>>,
          <<"columns", some => (IsInjectiveSeq(o.cols) /\ cols = Fixed \cup (IF f.sim THEN {"mc_true"} ELSE {}) \cup SeqToSet(cf.cols))>>,
          <<"values", some => \A c \in judged \cap cols : ValueOk(f, g, o, c)>>,
          <<"baseline", some => "baseline_subtracted" \in cols>>,
          <<"true_charge", some => TrueOk(f, g, o)>>,
          <<"types", some => Dtypes(f, o.dt)>>,
          <<"counts", [k \in {"n_events", "n_skipped"} |-> o.meta[k]] = Counts(f, x)>>,
          <<"times", o.times = Times(f, g)>>,
          <<"attributes", o.attrs = f.attrs /\ o.input>>,
          <<"modules", o.modules = f.modules>>,
          <<"config", o.config = cf.config>>,
          <<"mapping", o.map = cam>>,
          <<"simulation", o.sim = SimTables(f, g)>> >>

RECURSIVE AllOuts(_, _, _)
AllOuts(s, e, k) ==
    IF k > Len(e.files) THEN <<>>
    ELSE LET f == s.files[e.files[k]]
         IN OutOk(f, s.tcor, s.configs[e.config], s.cams[e.files[k]], e.outs[k], Limited(f, e.max), e.out = "") \o AllOuts(s, e, k + 1)

ExtractInit(cfg) == [files |-> cfg.files, tcor |-> cfg.tcor, configs |-> cfg.configs, cams |-> cfg.cams, made |-> {}]
ExtractStep(s, e) ==
  CASE e.op = "extract" ->
       IF e.err # "" THEN [s |-> s, c |-> << <<"no_error", FALSE>> >>]
       ELSE LET made == s.made \cup SeqToSet(e.made)
            IN [s |-> [s EXCEPT !.made = made],
                c |-> << <<"no_error", Len(e.outs) = Len(e.files)>>, <<"input_unchanged", e.kept>>,
                         \* nothing in the directory but the inputs and the files made so far
                         <<"files", SeqToSet(e.listing) = made>> >> \o (IF Len(e.outs) = Len(e.files) THEN AllOuts(s, e, 1) ELSE <<>>)]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
