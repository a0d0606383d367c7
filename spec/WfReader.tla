------------------------------ MODULE WfReader ------------------------------
(* Waveform readers (core/io/waveform.py, tio.py, simtel.py): a file is a         *)
(* sequence of events; a reader addresses a prefix of it.                        *)
(* An event (as seen) is [iev, code, fci, stale, missing, tack, t, r1, mc].       *)
EXTENDS Lib, TLC

\* Python's slice(a, b, c).indices(n); "none" is <<>>, otherwise <<value>>
SliceIdx(a, b, c, n) ==
    LET step == IF c = <<>> THEN 1 ELSE c[1]
        lo == IF step > 0 THEN 0 ELSE -1
        hi == IF step > 0 THEN n ELSE n - 1
        norm(x, dflt) == IF x = <<>> THEN dflt ELSE Clamp(IF x[1] < 0 THEN x[1] + n ELSE x[1], lo, hi)
        start == norm(a, IF step > 0 THEN 0 ELSE n - 1)
        stop == norm(b, IF step > 0 THEN n ELSE -1)
        len == IF step > 0 THEN (IF stop > start THEN (stop - start - 1) \div step + 1 ELSE 0)
               ELSE (IF start > stop THEN (start - stop - 1) \div (-step) + 1 ELSE 0)
    IN [k \in 1..len |-> start + (k - 1) * step]

Limit(n, max) == IF max = 0 THEN n ELSE Min(n, max)
Valid(i, n) == i < n /\ i >= -n
At(i, n) == IF i < 0 THEN i + n ELSE i

\* what the event at position k (0-based) of a file must look like
Ev(f, k) == LET e == f.events[k + 1]
            IN [iev |-> e.iev, code |-> k + 1, fci |-> e.fci, stale |-> e.stale, missing |-> e.missing, tack |-> e.tack,
                t |-> e.t, r1 |-> f.r1, mc |-> e.mc]
Details(o) == [iev |-> o.iev, fci |-> o.fci, stale |-> o.stale, missing |-> o.missing, tack |-> o.tack, t |-> o.t,
               r1 |-> o.r1, mc |-> o.mc]

WfInit(cfg) == [files |-> cfg.files, r |-> [i \in {} |-> 0], it |-> [i \in {} |-> 0], held |-> <<>>]
Put(fn, k, v) == [x \in (DOMAIN fn) \cup {k} |-> IF x = k THEN v ELSE fn[x]]

FileOf(s, r) == s.files[s.r[r].file]
N(s, r) == s.r[r].n

Fits(kind, f) == CASE f.simtel -> kind \in {"factory", "simtel"}
                   [] kind = "R0" -> ~f.r1
                   [] kind = "R1" -> f.r1
                   [] OTHER -> kind # "simtel"
Limits(e, s) == LET f == FileOf(s, e.r)
                    okm == e.tm < f.nm
                    oks == e.sp < f.nsp
                IN IF e.what \in {"dac", "hvon"} THEN okm /\ oks ELSE okm
Want(e, s) == LET f == FileOf(s, e.r)
              IN CASE e.what = "sn" -> f.sn[e.tm + 1] [] e.what = "sipm" -> f.sipm[e.tm + 1]
                   [] e.what = "primary" -> f.primary[e.tm + 1]
                   [] e.what = "dac" -> f.dac[e.tm + 1][e.sp + 1] [] e.what = "hvon" -> f.hvon[e.tm + 1][e.sp + 1]

WfStep(s, e) ==
  CASE e.op = "open" ->
       LET f == s.files[e.file]
           n == Limit(Len(f.events), e.max)
       IN IF e.absent THEN [s |-> s, c |-> << <<"absent", e.err = "FileNotFoundError">> >>]
          ELSE IF ~Fits(e.kind, f) THEN [s |-> s, c |-> << <<"level", e.err = "OSError">> >>]
          ELSE [ s |-> [s EXCEPT !.r = Put(s.r, e.r, [file |-> e.file, n |-> n])],
                 c |-> << <<"opens", e.err = "">>, <<"n_events", e.n = n /\ e.len = n>>,
                          <<"attributes", e.attrs = f.attrs>>,
                          \* the library is asked to leave out as many events as the caller said (2 and 1 if not)
                          <<"skips", f.simtel \/ SeqToSet(e.skip) = {e.skip_want} >> >> ]
    [] e.op = "iter" -> [ s |-> [s EXCEPT !.it = Put(s.it, e.it, [r |-> e.r, pos |-> 0])], c |-> <<>> ]
    [] e.op = "next" ->
       LET i == s.it[e.it]
       IN IF i.pos >= N(s, i.r) THEN [s |-> s, c |-> << <<"iteration", e.err = "StopIteration">> >>]
          ELSE [ s |-> [s EXCEPT !.it[e.it].pos = @ + 1, !.held = Append(@, Ev(FileOf(s, i.r), i.pos))],
                 c |-> << <<"iteration", e.err = "" /\ e.obs.code = i.pos + 1>>,
                          <<"details", e.err = "" /\ Details(e.obs) = Details(Ev(FileOf(s, i.r), i.pos))>> >> ]
    [] e.op = "all" ->
       LET f == FileOf(s, e.r)
       IN [ s |-> s, c |-> << <<"iteration", e.err = "" /\ [k \in 1..Len(e.obs) |-> e.obs[k].code] = [k \in 1..N(s, e.r) |-> k]>>,
                              <<"details", \A k \in 1..Min(Len(e.obs), N(s, e.r)) : Details(e.obs[k]) = Details(Ev(f, k - 1))>> >> ]
    [] e.op = "index" ->
       LET f == FileOf(s, e.r)
           n == N(s, e.r)
       IN IF ~Valid(e.i, n) THEN [s |-> s, c |-> << <<"out_of_range", e.err = "IndexError">> >>]
          ELSE [ s |-> IF e.err = "" THEN [s EXCEPT !.held = Append(@, Ev(f, At(e.i, n)))] ELSE s,
                 c |-> << <<"index", e.err = "" /\ e.obs.code = At(e.i, n) + 1>>,
                          <<"details", e.err = "" /\ Details(e.obs) = Details(Ev(f, At(e.i, n)))>> >> ]
    [] e.op = "slice" ->
       LET ix == SliceIdx(e.a, e.b, e.c, N(s, e.r))
       IN [ s |-> s, c |-> << <<"slice", e.err = "" /\ e.codes = [k \in 1..Len(ix) |-> ix[k] + 1]>> >> ]
    [] e.op = "list" ->
       LET n == N(s, e.r)
       IN IF \E k \in 1..Len(e.l) : ~Valid(e.l[k], n) THEN [s |-> s, c |-> << <<"out_of_range", e.err = "IndexError">> >>]
          ELSE [ s |-> s, c |-> << <<"list", e.err = "" /\ e.codes = [k \in 1..Len(e.l) |-> At(e.l[k], n) + 1]>> >> ]
    [] e.op = "badtype" -> [s |-> s, c |-> << <<"type", e.err = "TypeError">> >>]
    [] e.op = "module" ->
       IF ~Limits(e, s) THEN [s |-> s, c |-> << <<"module_range", e.err = "IndexError">> >>]
       ELSE [s |-> s, c |-> << <<"module", e.err = "" /\ e.val = Want(e, s)>> >>]
    \* operations on the waveforms of a held event keep its details
    [] e.op = "derive" ->
       [s |-> s, c |-> << <<"derived", \A k \in 1..Len(e.obs) : e.obs[k].err = "" /\ Details(e.obs[k]) = Details(s.held[e.h])>> >>]
    \* which reader takes a file: the one whose mark it carries, compressed or not, under any name
    [] e.op = "pick" ->
       LET tio == e.kind \in {"tio", "tio.gz"}
           sim == e.kind \in {"sim_a", "sim_a.gz", "sim_b", "sim_b.gz"}
       IN [s |-> s, c |-> << <<"compatible", e.err = "" /\ e.tio = tio /\ e.r0 = tio /\ e.r1 = tio /\ e.sim = sim>>,
                             <<"picked", e.got = (IF sim THEN "skipped" ELSE IF tio THEN "tio" ELSE "none")>>,
                             <<"file_kept", e.kept>> >>]
    \* every held event again
    [] e.op = "held" -> [s |-> s, c |-> << <<"held", e.obs = s.held>> >>]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
