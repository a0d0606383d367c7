--------------------------------- MODULE DL1 ---------------------------------
(* DL1 files (core/io/dl1_reader.py): a table of rows, one per pixel of every       *)
(* event in file order, addressed in many ways by several readers and iterators;   *)
(* and the monitor tables embedded in older files.                                 *)
(* A row as seen is <<event number, pixel, unique value>>; the unique value is the *)
(* position of the row in the file.                                               *)
EXTENDS Lib, TLC

NEv(f) == Len(f.ev)
NRows(f) == NEv(f) * f.np
Row(f, k) == << f.ev[(k - 1) \div f.np + 1], (k - 1) % f.np, k >>
Rows(f, a, b) == TLCEval([i \in 1..Max(0, b - a) |-> Row(f, a + i)])      \* rows a+1 .. b
Event(f, j) == Rows(f, j * f.np, (j + 1) * f.np)                           \* j is 0-based
Positions(f, set) == SelectSeq([j \in 1..NEv(f) |-> j - 1], LAMBDA j : f.ev[j + 1] \in set)
PosOf(f, x) == (CHOOSE j \in 1..NEv(f) : f.ev[j] = x) - 1
Col(f, name, k) == CASE name = "iev" -> Row(f, k)[1] [] name = "pixel" -> Row(f, k)[2] [] OTHER -> Row(f, k)[3]

\* the list of frames (each a sequence of rows) an iteration gives
Chunked(f, n) == LET c == IF n = 0 THEN Max(NRows(f), 1) ELSE n
                 IN [k \in 1..((NRows(f) + c - 1) \div c) |-> Rows(f, (k - 1) * c, Min(k * c, NRows(f)))]
Frames(f, e) == CASE e.kind = "events" -> [j \in 1..NEv(f) |-> Event(f, j - 1)]
                  [] e.kind = "selected" -> LET p == Positions(f, SeqToSet(e.list)) IN [i \in 1..Len(p) |-> Event(f, p[i])]
                  [] e.kind = "rows" -> Chunked(f, 1)
                  [] e.kind = "chunks" -> Chunked(f, e.n)
Clause(e) == CASE e.kind = "events" -> "iterate_events" [] e.kind = "selected" -> "iterate_selected"
               [] e.kind = "rows" -> "iterate_rows" [] e.kind = "chunks" -> "iterate_chunks"

\* ---- monitor: table k of [nev, ndev, cols, val]; val[c][row]
Tables == <<"camera", "tm", "pixel">>
HasCol(t, c) == \E i \in 1..Len(t.cols) : t.cols[i] = c
ColOf(t, c) == t.val[CHOOSE i \in 1..Len(t.cols) : t.cols[i] = c]
KeyFor(m, c) == IF HasCol(m.camera, c) THEN "camera" ELSE IF HasCol(m.tm, c) THEN "tm" ELSE IF HasCol(m.pixel, c) THEN "pixel" ELSE ""
KeyName(k) == "monitor_" \o k
RECURSIVE SumAt(_, _, _)
SumAt(v, dev, k) == IF k = 0 THEN 0 ELSE SumAt(v, dev, k - 1) + (IF dev[k][1] = dev[k][2] THEN v[k] ELSE 0)
\* the mean of v over the rows whose device is d, checked in thousandths
MeanOK(v, dev, d, got) == LET n == Cardinality({k \in 1..Len(v) : dev[k] = d})
                              sum == SumAt(v, [k \in 1..Len(v) |-> <<dev[k], d>>], Len(v))
                          IN Abs(got * n - 1000 * sum) <= n
Devices(t) == LET d == ColOf(t, "idevice") IN {d[k] : k \in 1..Len(d)}
Sub(v, a, b) == LET lo == Min(a, Len(v))
                    hi == IF b < 0 THEN Len(v) ELSE Min(b, Len(v)) IN SubSeq(v, lo + 1, hi)

DL1Init(cfg) == [files |-> cfg.files, r |-> [i \in {} |-> 0], it |-> [i \in {} |-> 0]]
Put(fn, k, v) == [x \in (DOMAIN fn) \cup {k} |-> IF x = k THEN v ELSE fn[x]]

DL1Step(s, e) ==
  IF e.op = "open" THEN
    LET f == s.files[e.file]
    IN [s |-> [s EXCEPT !.r = Put(s.r, e.r, e.file)],
        c |-> << <<"opens", e.err = "">>, <<"attributes", e.err = "" => e.attrs = f.attrs>>,
                 <<"columns", e.err = "" /\ NEv(f) > 0 => e.cols = f.cols>>,
                 <<"n_rows", e.err = "" /\ NEv(f) > 0 => e.nrows = NRows(f)>> >>]
  ELSE IF e.op = "next" THEN
    LET i == s.it[e.it]
    IN IF i.pos >= Len(i.frames) THEN [s |-> s, c |-> << <<i.clause, e.err = "StopIteration">> >>]
       ELSE [s |-> [s EXCEPT !.it[e.it].pos = @ + 1], c |-> << <<i.clause, e.err = "" /\ e.rows = i.frames[i.pos + 1]>> >>]
  ELSE
  LET f == s.files[s.r[e.r]]
  IN CASE e.op = "get" ->
       [s |-> s, c |-> IF e.iev \in SeqToSet(f.ev) THEN << <<"event", e.err = "" /\ e.rows = Event(f, PosOf(f, e.iev))>> >>
                       ELSE << <<"no_event", e.err = "IndexError">> >>]
    [] e.op = "position" -> [s |-> s, c |-> << <<"position", e.err = "" /\ e.rows = Event(f, e.j)>> >>]
    [] e.op = "lookup" -> [s |-> s, c |-> << <<"lookup", e.err = "" /\ e.vals = f.ev>> >>]
    [] e.op = "iter" -> [s |-> [s EXCEPT !.it = Put(s.it, e.it, [frames |-> Frames(f, e), clause |-> Clause(e), pos |-> 0])], c |-> <<>>]
    [] e.op = "all" -> [s |-> s, c |-> << <<Clause(e), e.err = "" /\ e.frames = Frames(f, e)>> >>]
    [] e.op = "table" -> [s |-> s, c |-> << <<"table", e.err = "" /\ e.rows = Rows(f, 0, NRows(f))>> >>]
    [] e.op = "range" -> [s |-> s, c |-> << <<"select", e.err = "" /\ e.rows = Rows(f, Min(e.a, NRows(f)), Min(Max(e.a, e.b), NRows(f)))>> >>]
    [] e.op = "where" ->
       [s |-> s, c |-> << <<"select", e.err = "" /\ e.rows = SelectSeq(Rows(f, 0, NRows(f)), LAMBDA r : IF e.col = "iev" THEN r[1] = e.x ELSE r[2] = e.x)>> >>]
    [] e.op = "columns" ->
       [s |-> s, c |-> << <<"column", e.err = "" /\ e.vals = [c \in 1..Len(e.names) |->
            [i \in 1..(IF e.b < 0 THEN NRows(f) ELSE Max(0, Min(e.b, NRows(f)) - Min(e.a, NRows(f)))) |->
               Col(f, e.names[c], (IF e.b < 0 THEN 0 ELSE Min(e.a, NRows(f))) + i)]]>> >>]
    [] e.op = "module" ->
       LET okm == e.tm < f.nm
           oks == e.what \in {"dac", "hvon"} => e.sp < f.nsp
       IN [s |-> s, c |-> IF ~(okm /\ oks) THEN << <<"module_range", e.err = "IndexError">> >>
            ELSE << <<"module", e.err = "" /\ e.val = CASE e.what = "sn" -> f.sn[e.tm + 1] [] e.what = "sipm" -> f.sipm[e.tm + 1]
                                                        [] e.what = "primary" -> f.primary[e.tm + 1]
                                                        [] e.what = "dac" -> f.dac[e.tm + 1][e.sp + 1] [] e.what = "hvon" -> f.hvon[e.tm + 1][e.sp + 1]>> >>]
    \* ---- monitor
    [] e.op \in {"m_attrs", "m_key", "m_column", "m_columns", "m_array", "m_average", "m_table", "m_matched", "m_print"} /\ ~f.hasmon ->
       [s |-> s, c |-> << <<"m_absent", e.err = "AttributeError">> >>]
    [] e.op = "m_attrs" ->
       [s |-> s, c |-> << <<"m_attrs", e.err = "" /\ e.attrs = <<f.mon.nev, f.nm>> /\ e.cols = [i \in 1..3 |-> f.mon[Tables[i]].cols]>> >>]
    [] e.op = "m_print" ->
       LET shown(t) == SelectSeq(t.cols, LAMBDA c : c \notin {"imon", "idevice", "t_cpu"})
       IN [s |-> s, c |-> << <<"m_print", e.err = "" /\ e.cols = [i \in 1..3 |-> shown(f.mon[Tables[i]])]>> >>]
    [] e.op = "m_key" ->
       LET k == KeyFor(f.mon, e.col)
       IN [s |-> s, c |-> IF k = "" THEN << <<"m_key", e.err = "KeyError">> >> ELSE << <<"m_key", e.err = "" /\ e.key = KeyName(k)>> >>]
    [] e.op = "m_column" ->
       LET k == IF e.key # "" THEN e.key ELSE KeyFor(f.mon, e.col)
       IN [s |-> s, c |-> IF k = "" \/ (e.key # "" /\ ~HasCol(f.mon[k], e.col)) THEN << <<"m_column_absent", e.err = "KeyError">> >>
                          ELSE << <<"m_column", e.err = "" /\ e.vals = Sub(ColOf(f.mon[k], e.col), e.a, e.b)>> >>]
    [] e.op = "m_columns" ->
       [s |-> s, c |-> IF \E i \in 1..Len(e.names) : KeyFor(f.mon, e.names[i]) = "" THEN << <<"m_column_absent", e.err = "KeyError">> >>
                       ELSE << <<"m_column", e.err = "" /\ e.vals = [i \in 1..Len(e.names) |-> ColOf(f.mon[KeyFor(f.mon, e.names[i])], e.names[i])]>> >>]
    [] e.op = "m_array" ->
       LET k == IF e.key # "" THEN e.key ELSE KeyFor(f.mon, e.col)
           t == f.mon[k]
       IN [s |-> s, c |-> << <<"m_array", e.err = "" /\ e.vals = [i \in 1..f.mon.nev |-> [d \in 1..t.ndev |-> ColOf(t, e.col)[(i - 1) * t.ndev + d]]]>> >>]
    [] e.op = "m_average" ->
       LET t == f.mon[KeyFor(f.mon, e.col)]
       IN [s |-> s, c |-> << <<"m_average", e.err = "" /\ Len(e.vals) = Cardinality(Devices(t))
                                            /\ \A d \in 1..Len(e.vals) : MeanOK(ColOf(t, e.col), ColOf(t, "idevice"), d - 1, e.vals[d])>> >>]
    [] e.op = "m_table" ->
       [s |-> s, c |-> IF f.mon.big /\ ~e.force THEN << <<"m_table_size", e.err = "MemoryError">> >>
                       ELSE << <<"m_table", e.err = "" /\ e.cols = f.mon[e.key].cols /\ e.vals = f.mon[e.key].val>> >>]
    [] e.op = "m_matched" ->
       LET k == KeyFor(f.mon, e.col)
       IN [s |-> s, c |-> IF k = "" THEN << <<"m_matched_absent", e.err = "KeyError">> >>
                          ELSE << <<"m_matched", e.err = "" /\ e.vals = [i \in 1..NRows(f) |-> ColOf(f.mon[k], e.col)[f.idx[k][i] + 1]]>> >>]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
