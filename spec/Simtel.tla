------------------------------- MODULE Simtel -------------------------------
(* Simulated events (core/io/simtel.py).  A file has events and a simulated camera; *)
(* f.at[j] is the <<row, column>> of simulated pixel j, f.cam[p] that of camera      *)
(* pixel p of the package's mapping.  An event shows, for every camera pixel, the    *)
(* simulated pixel its samples (pix) and its true charge (pe) come from.             *)
EXTENDS WfReader

\* the simulated pixel at the position of each camera pixel
OrderOf(at, cam) ==
    LET where == TLCEval([rc \in {at[j] : j \in 1..Len(at)} |-> CHOOSE j \in 1..Len(at) : at[j] = rc])
    IN [p \in 1..Len(cam) |-> where[cam[p]]]
SimEv(f, k) == [iev |-> f.events[k + 1].iev, t |-> f.events[k + 1].t, r1 |-> TRUE, fci |-> 0, stale |-> FALSE, missing |-> FALSE]
SameEvent(o, f, k) == o.code = k + 1 /\ o.pecode = k + 1
SameDetails(o, f, k) == [x \in {"iev", "t", "r1", "fci", "stale", "missing"} |-> o[x]] = SimEv(f, k)
Placed(o, order) == o.pix = order /\ o.pe = order
Info(o, f, k) == o.mc = f.events[k + 1].mc /\ o.pointing = f.events[k + 1].pointing
Seen(e, s, f, k, name, r) ==
   << <<name, e.err = "" /\ SameEvent(e.obs, f, k)>>,
      <<"details", e.err = "" => SameDetails(e.obs, f, k)>>,
      <<"pixels", e.err = "" => Placed(e.obs, s.order[s.r[r].file])>>,
      <<"information", e.err = "" => Info(e.obs, f, k)>>,
      <<"header", e.err = "" => e.obs.header = f.header /\ e.obs.run = f.run>> >>

SimInit(cfg) == [files |-> cfg.files, order |-> TLCEval([i \in 1..Len(cfg.files) |-> TLCEval(OrderOf(cfg.files[i].at, cfg.cam))]),
                 r |-> [i \in {} |-> 0], it |-> [i \in {} |-> 0], held |-> <<>>, cam |-> cfg.cam]
Hold(s, r, k) == [s EXCEPT !.held = Append(@, <<s.r[r].file, k>>)]
SimStep(s, e) ==
  CASE e.op = "open" ->
       IF e.absent THEN [s |-> s, c |-> << <<"absent", e.err = "FileNotFoundError">> >>]
       ELSE LET f == s.files[e.file]
                n == Limit(Len(f.events), e.max)
            IN [ s |-> [s EXCEPT !.r = Put(s.r, e.r, [file |-> e.file, n |-> n])],
                 c |-> << <<"opens", e.err = "">>, <<"n_events", e.n = n /\ e.len = n>>, <<"attributes", e.attrs = f.attrs>>,
                          <<"mapping", e.map = s.cam>>, <<"module", e.nans>> >> ]
    [] e.op = "iter" -> [ s |-> [s EXCEPT !.it = Put(s.it, e.it, [r |-> e.r, pos |-> 0])], c |-> <<>> ]
    [] e.op = "next" ->
       LET i == s.it[e.it]
       IN IF i.pos >= N(s, i.r) THEN [s |-> s, c |-> << <<"iteration", e.err = "StopIteration">> >>]
          ELSE [ s |-> Hold([s EXCEPT !.it[e.it].pos = @ + 1], i.r, i.pos), c |-> Seen(e, s, FileOf(s, i.r), i.pos, "iteration", i.r) ]
    [] e.op = "index" ->
       LET n == N(s, e.r)
       IN IF ~Valid(e.i, n) THEN [s |-> s, c |-> << <<"out_of_range", e.err = "IndexError">> >>]
          ELSE [ s |-> IF e.err = "" THEN Hold(s, e.r, At(e.i, n)) ELSE s, c |-> Seen(e, s, FileOf(s, e.r), At(e.i, n), "index", e.r) ]
    [] e.op \in {"slice", "list"} ->
       LET n == N(s, e.r)
           f == FileOf(s, e.r)
           ix == IF e.op = "slice" THEN SliceIdx(e.a, e.b, e.c, n) ELSE [k \in 1..Len(e.l) |-> At(e.l[k], n)]
       IN IF e.op = "list" /\ \E k \in 1..Len(e.l) : ~Valid(e.l[k], n) THEN [s |-> s, c |-> << <<"out_of_range", e.err = "IndexError">> >>]
          ELSE [ s |-> s, c |-> << <<e.op, e.err = "" /\ e.codes = [k \in 1..Len(ix) |-> ix[k] + 1]>>,
                                   <<"information", Len(ix) = 0 \/ (e.err = "" /\ Info(e.obs, f, ix[Len(ix)]))>> >> ]
    \* every held event again, whatever was read since
    [] e.op = "held" -> [ s |-> s, c |-> << <<"held", Len(e.obs) = Len(s.held) /\ \A k \in 1..Len(s.held) :
                                                  /\ SameEvent(e.obs[k], s.files[s.held[k][1]], s.held[k][2])
                                                  /\ SameDetails(e.obs[k], s.files[s.held[k][1]], s.held[k][2])
                                                  /\ e.obs[k].placed>> >> ]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
