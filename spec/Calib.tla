------------------------------- MODULE Calib -------------------------------
(* Calibrators (calib/).  Samples and coefficients are integers or rationals with *)
(* integer numerators; results are given in the units that make them integers.    *)
EXTENDS Lib, TLC

\* ---- time calibration: correction of pixel p is a[p]/den samples
\* the two samples the value at position x = num/den is interpolated between
Left(num, den, n) == LET x1 == num \div den IN Clamp(x1, 0, n - 2)
\* den times the interpolated value
InterpAt(w, num, den) ==
    LET x1 == Left(num, den, Len(w))
        y1 == w[x1 + 1]
        y2 == w[x1 + 2]
    IN den * y1 + (y2 - y1) * (num - x1 * den)
TimeRow(w, a, den) == [s \in 1..Len(w) |-> InterpAt(w, (s - 1) * den - a, den)]
TimeWf(wf, a, den) == TLCEval([p \in 1..Len(wf) |-> TimeRow(wf[p], a[p], den)])

\* ---- amplitude: (v - ped) / (cn/cd) * (fn/fd), in units of 1/(cn*fd)
AmpOk(c, v, p, r) == r = (v - c.ped[p + 1]) * c.cd * c.fn[p + 1]

\* ---- online calibration of the stand-in library: pedestal of (pixel, cell)
Online(wf, fci, base, slope) ==
    TLCEval([p \in 1..Len(wf) |-> [s \in 1..Len(wf[p]) |-> wf[p][s] - (base * (p - 1) + slope * ((fci + s - 1) % 16))]])

CalibInit(cfg) == [a |-> cfg.a, den |-> cfg.den, amp |-> cfg.amp, prof |-> cfg.prof, pden |-> cfg.pden, ped |-> cfg.ped, n |-> 0]
CalibStep(s, e) ==
  LET ok == e.err = ""
      common == << <<"no_error", ok>>, <<"input_unchanged", e.same>>, <<"earlier_results", e.kept>> >>
  IN CASE e.op = "time" ->
       [s |-> [s EXCEPT !.n = @ + 1],
        c |-> common \o << <<"time", ok => e.out = TimeWf(e.wf, s.a, s.den)>>, <<"time_type", ok => e.dtype = e.dt>> >>]
    [] e.op = "amp" ->
       [s |-> [s EXCEPT !.n = @ + 1],
        c |-> common \o << <<"amplitude", ok => (Len(e.out) = Len(e.v) /\ \A i \in 1..Len(e.v) : AmpOk(s.amp, e.v[i], e.pix[i], e.out[i]))>>,
                           <<"amplitude_shape", ok => e.shape = e.vshape>> >>]
    [] e.op = "fold" ->      \* in units of 1/pden
       [s |-> [s EXCEPT !.n = @ + 1],
        c |-> common \o << <<"fold", ok => (Len(e.out) = Len(e.im) /\ \A k \in 1..Len(e.im) : \A p \in 1..Len(e.im[k]) : e.out[k][p] = e.im[k][p] * s.prof[p])>>,
                           <<"unfold_fold", ok => e.back = e.im>>,
                           <<"fold_unfold", ok => e.forth = e.im>> >>]
    [] e.op = "online" ->
       [s |-> [s EXCEPT !.n = @ + 1],
        c |-> common \o << <<"online", ok => e.out = Online(e.wf, e.fci, s.ped[1], s.ped[2])>>,
                           <<"online_type", ok => (e.dtype = "f4" /\ e.r1 /\ ~e.alias)>>,
                           <<"modules", e.sn = e.sns>> >>]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
