-------------------------------- MODULE Files --------------------------------
(* Configuration and run files (utils/files.py, scripts/generate_dl1_config.py).   *)
EXTENDS Lib, TLC

\* ---- high-voltage configuration: 32 modules of 16 superpixels; lines in file order
ZeroHV == [i \in 1..512 |-> 0]
RECURSIVE FoldHV(_, _, _)
FoldHV(tab, lines, kind) ==
    IF lines = <<>> THEN tab
    ELSE LET l == Head(lines)
         IN FoldHV(IF l.kind = kind THEN [tab EXCEPT ![l.tm * 16 + l.sp + 1] = l.val] ELSE tab, Tail(lines), kind)

\* ---- run lists
Pad5(n) == (IF n < 10 THEN "0000" ELSE IF n < 100 THEN "000" ELSE IF n < 1000 THEN "00" ELSE IF n < 10000 THEN "0" ELSE "") \o ToString(n)
RunPath(dir, n, ext) == (IF dir = "" THEN "" ELSE dir \o "/") \o "Run" \o Pad5(n) \o ext

\* ---- natural order: a name is text, number, text, number, ..., text; text as character codes, numbers as their
\*      digits without leading zeros (no number at all, at the start: <<>>), so that their size is unlimited
LexText(a, b) == \E k \in 0..Len(a) : /\ k <= Len(b) /\ \A i \in 1..k : a[i] = b[i]
                                      /\ \/ k = Len(a) /\ k < Len(b)
                                         \/ k < Len(a) /\ k < Len(b) /\ a[k + 1] < b[k + 1]
NumLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexText(a, b))
RECURSIVE Before(_, _)
Before(a, b) ==      \* strictly before
    IF b = <<>> THEN FALSE
    ELSE IF a = <<>> THEN TRUE
    ELSE IF a[1].num # b[1].num THEN NumLess(a[1].num, b[1].num)
    ELSE IF LexText(a[1].text, b[1].text) THEN TRUE
    ELSE IF a[1].text # b[1].text THEN FALSE
    ELSE Before(Tail(a), Tail(b))

FilesInit(cfg) == [cols |-> cfg.cols, def |-> cfg.def, n |-> 0]
FilesStep(s, e) ==
  IF e.err # "" THEN [s |-> s, c |-> << <<"no_error", FALSE>> >>]
  ELSE
  LET ne == << <<"no_error", TRUE>> >>
  IN CASE e.op = "hv" ->
       [s |-> s, c |-> ne \o << <<"dac", e.dac = FoldHV(ZeroHV, e.lines, "HV")>>, <<"hvon", e.hvon = FoldHV(ZeroHV, e.lines, "HVOn")>> >>]
    [] e.op = "runlist" ->
       [s |-> s, c |-> ne \o << <<"runs", e.index = [i \in 1..Len(e.rows) |-> e.rows[i][1]]>>,
                                <<"columns", e.gotcols = e.cols>>,
                                <<"values", e.vals = [i \in 1..Len(e.rows) |-> Tail(e.rows[i])]>>,
                                <<"paths", e.kind \in {"r1", "dl1"} => e.paths = [i \in 1..Len(e.rows) |-> RunPath(e.dir, e.rows[i][1], e.ext)]>>,
                                <<"readers", e.open => e.rpaths = e.paths /\ e.nev = e.expnev>> >>]
    [] e.op = "sort" ->
       [s |-> s, c |-> ne \o << <<"permutation", IsInjectiveSeq(e.perm) /\ Len(e.perm) = Len(e.names)>>,
                                <<"natural_order", \A i \in 1..(Len(e.perm) - 1) : ~Before(e.names[e.perm[i + 1]], e.names[e.perm[i]])>> >>]
    [] e.op = "config" ->     \* e.entries: what the generated file says, e.active: the columns of a chain built from it (with e.flip inverted)
       LET names == [i \in 1..Len(e.entries) |-> e.entries[i].k]
           val(k) == (CHOOSE i \in 1..Len(e.entries) : e.entries[i].k = k)
           on(k) == IF k \in SeqToSet(e.flip) THEN ~e.entries[val(k)].v ELSE e.entries[val(k)].v
       IN [s |-> s, c |-> ne \o << <<"each_column_once", IsInjectiveSeq(names) /\ SeqToSet(names) = SeqToSet(s.cols)>>,
                                   <<"default_setting", \A i \in 1..Len(s.def) : s.def[i].k \in SeqToSet(names) => e.entries[val(s.def[i].k)].v = s.def[i].v>>,
                                   <<"activates", SeqToSet(e.active) = {k \in SeqToSet(names) : on(k)}>> >>]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
