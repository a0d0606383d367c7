------------------------------- MODULE Matcher -------------------------------
(* Amplitude matching (calib/amplitude_matcher.py).  Superpixels of one class    *)
(* (same start, mask and response) are one entry here; the driver spreads the    *)
(* classes over the 512 superpixels.  Amplitudes are integers; S is the sum over  *)
(* the events and four pixels, compared with n * aim.                            *)
EXTENDS Lib, TLC

Step(stage) == CASE stage = 0 -> 10 [] stage = 1 -> 5 [] stage = 2 -> 1
Fin == 3

NewSp(start, mask) == [dac |-> start, prev |-> start, pd |-> 0, stage |-> 0, mask |-> mask]

\* one superpixel, one measurement: d = distance, dir = -1, 0, 1
SpStep(sp, d, dir, it) ==
    LET pd == IF it = 0 THEN d ELSE sp.pd
        keep(dac, stage) == [sp EXCEPT !.dac = dac, !.prev = sp.dac, !.pd = d, !.stage = stage]
        nd == sp.dac + Step(sp.stage) * dir
    IN IF sp.stage = Fin THEN keep(sp.dac, Fin)
       ELSE IF sp.mask THEN keep(255, Fin)
       ELSE IF pd < d THEN keep(sp.prev, sp.stage + 1)
       \* a step back to the previous dac without having got closer
       ELSE IF it > 0 /\ nd = sp.prev /\ d = pd THEN keep(nd, sp.stage + 1)
       ELSE IF nd > 255 \/ nd < 10 THEN keep(255, Fin)
       ELSE keep(nd, sp.stage)

\* global stage: 0 first pass, 1 reset, 2 second pass, 3 finished
MatchStep(s, ds, dirs) ==
    LET r == IF s.gs = 1 THEN [s EXCEPT !.it = 0, !.gs = 2,
                                        !.sp = [i \in 1..Len(s.sp) |-> [s.sp[i] EXCEPT !.stage = 2]]] ELSE s
        sp == TLCEval([i \in 1..Len(r.sp) |-> SpStep(r.sp[i], ds[i], dirs[i], r.it)])
        all == \A i \in 1..Len(sp) : sp[i].stage = Fin
    IN IF s.gs = 3 THEN s
       ELSE [r EXCEPT !.sp = sp, !.it = r.it + 1, !.gs = IF all THEN r.gs + 1 ELSE r.gs]

MatcherInit(cfg) == [gs |-> 0, it |-> 0, aim |-> cfg.aim, nev |-> cfg.nev,
                     sp |-> [i \in 1..Len(cfg.start) |-> NewSp(cfg.start[i], cfg.mask[i])]]

\* amps[class][event][pixel 1..4]
Total(a) == SumSeq([i \in 1..Len(a) |-> SumSeq(a[i])])

MatcherStep(s, e) ==
  CASE e.op = "step" ->
       LET n == 4 * s.nev
           dist == TLCEval([i \in 1..Len(s.sp) |-> Total(e.amps[i]) - n * s.aim])
           s2 == MatchStep(s, [i \in 1..Len(s.sp) |-> Abs(dist[i])], [i \in 1..Len(s.sp) |-> Sign(dist[i])])
       IN [ s |-> s2,
            c |-> << <<"no_error", e.err = "">>,
                     <<"shape", e.shape = <<32, 16>> >>,
                     \* all superpixels of a class got the same DAC, the one of the specification
                     <<"dac", Len(e.dacs) = Len(s.sp) /\ \A i \in 1..Len(s.sp) : e.dacs[i] = <<s2.sp[i].dac>> >>,
                     <<"range", \A i \in 1..Len(e.dacs) : \A j \in 1..Len(e.dacs[i]) : e.dacs[i][j] \in 10..255>>,
                     <<"completed", e.done = (s.gs = 3)>>,
                     <<"average", \A i \in 1..Len(s.sp) : \A p \in 1..4 :
                          e.avg[i][p] = SumSeq([k \in 1..s.nev |-> e.amps[i][k][p]])>>,
                     <<"start_kept", e.start_same>> >> ]
    [] e.op = "end" ->
       [ s |-> s, c |-> << <<"terminates", e.must => s.gs = 3>> >> ]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
