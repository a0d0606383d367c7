-------------------------------- MODULE Store --------------------------------
(* The HDF5 file: core/io/hdf5_writer.py, hdf5_appender.py, hdf5_reader.py.    *)
(*                                                                            *)
(* Abstract state of one file across create / append sessions:                *)
(*   tab[k]  = [kind, rows, idx, nf, sch]: rows of table k in order; kind      *)
(*             "none" | "app" (appended) | "fix" (written as a whole)          *)
(*             (rows as tuples of value codes, nf = number of frames given)    *)
(*   meta    = set of <<key, name, entry, code>>                               *)
(*   mapp    = code of the stored camera mapping, 0 if none                    *)
(*   sess    = "none" | "w" | "a" | "closed"; nsess = number of sessions        *)
(* cfg.keys: table names; cfg.sch[i]: schema of table i with column names,     *)
(* column types and the lower/upper size of a row in bytes.                    *)
EXTENDS Lib

StoreInit(cfg) ==
    [ cfg   |-> cfg,
      tab   |-> [k \in SeqToSet(cfg.keys) |-> [kind |-> "none", rows |-> <<>>, idx |-> <<>>, nf |-> 0]],
      meta  |-> {},
      mapp  |-> 0,
      sess  |-> "none",
      nsess |-> 0,
      exc   |-> FALSE ]

Schema(s, k) == s.cfg.sch[CHOOSE i \in 1..Len(s.cfg.keys) : s.cfg.keys[i] = k]

Reserved == {"info", "mapping"}

\* later entries win
MergeMeta(m, key, name, entries) ==
    LET names == {entries[i][1] : i \in 1..Len(entries)}
        last(n) == CHOOSE i \in 1..Len(entries) :
                       entries[i][1] = n /\ \A j \in (i+1)..Len(entries) : entries[j][1] # n
    IN {x \in m : ~(x[1] = key /\ x[2] = name /\ x[3] \in names)}
       \cup {<<key, name, n, entries[last(n)][2]>> : n \in names}

DoAppend(s, k, rows) ==
    [s EXCEPT !.tab[k] = [kind |-> "app", rows |-> @.rows \o rows,
                          idx |-> <<>>, nf |-> @.nf + 1]]
DoWrite(s, k, rows, idx) ==
    [s EXCEPT !.tab[k] = [kind |-> "fix", rows |-> rows, idx |-> idx, nf |-> 1]]

Tables(s) == {k \in DOMAIN s.tab : s.tab[k].kind # "none"}

\* tables and metadata a finished file must list
MetaNames(s) == {<<x[1], x[2]>> : x \in s.meta}
                \cup {<<k, "metadata">> : k \in Tables(s) \cup {"data"}}

CloseClauses(s, e) ==
    IF e.how \in {"exc", "refused"}
    THEN <<<<"same_exc", e.seen>>>>
    ELSE <<<<"no_exc", e.seen>>>>

\* ------- content of a closed file as seen by a fresh reader -----------------
ObsTab(e, k) == e.tabs[CHOOSE i \in 1..Len(e.tabs) : e.tabs[i].key = k]
HasObs(e, k) == \E i \in 1..Len(e.tabs) : e.tabs[i].key = k

RowsOk(s, e) ==
    \A k \in Tables(s) : HasObs(e, k) /\ ObsTab(e, k).rows = s.tab[k].rows
ColsOk(s, e) ==
    \A k \in Tables(s) : HasObs(e, k) /\ ObsTab(e, k).cols = Schema(s, k).cols
                                      /\ ObsTab(e, k).dtypes = Schema(s, k).dtypes
IdxOk(s, e) ==
    \A k \in Tables(s) : (s.tab[k].kind = "fix" => HasObs(e, k) /\ ObsTab(e, k).idx = s.tab[k].idx)
ListOk(s, e) ==
    /\ SeqToSet(e.keys) = Tables(s)
    /\ Len(e.keys) = Cardinality(SeqToSet(e.keys))
NBytesOk(s, e) ==
    \A k \in Tables(s) :
        LET t == s.tab[k]
            n == Len(t.rows)
            b == ObsTab(e, k).nbytes
            extra == IF t.kind = "fix" THEN 16 * n + 200 ELSE 200 * t.nf
        IN HasObs(e, k) /\ b >= Schema(s, k).lo * n /\ b <= Schema(s, k).hi * n + extra
TotalOk(s, e) == e.total = SumSeq([i \in 1..Len(e.tabs) |-> e.tabs[i].nbytes])
MetaOk(s, e) ==
    /\ {<<x[1], x[2], x[3], x[4]>> : x \in SeqToSet(e.meta)} = s.meta
    /\ Len(e.meta) = Cardinality(s.meta)
MetaNamesOk(s, e) ==
    /\ {<<x[1], x[2]>> : x \in SeqToSet(e.names)} = MetaNames(s)
    /\ Len(e.names) = Cardinality(MetaNames(s))

ContentClauses(s, e) ==
    << <<"opens", e.err = "">>,
       <<"listed", ListOk(s, e)>>,
       <<"rows", RowsOk(s, e)>>,
       <<"cols", ColsOk(s, e)>>,
       <<"index", IdxOk(s, e)>>,
       <<"meta", MetaOk(s, e)>>,
       <<"metanames", MetaNamesOk(s, e)>>,
       <<"nbytes", NBytesOk(s, e)>>,
       <<"total", TotalOk(s, e)>>,
       <<"mapping", e.mapp = s.mapp>> >>

\* ------- reader queries (C05) ------------------------------------------------
\* Python slice bounds: -1 stands for None
Lo(e) == IF e.start = -1 THEN 0 ELSE e.start
Hi(e, n) == IF e.stop = -1 THEN n ELSE Min(e.stop, n)
Sel(rows, a, b) == IF a >= b THEN <<>> ELSE SubSeq(rows, a + 1, b)
ColNo(s, k, c) == CHOOSE i \in 1..Len(Schema(s, k).cols) : Schema(s, k).cols[i] = c
Project(s, k, rows, cs) == [r \in 1..Len(rows) |-> [j \in 1..Len(cs) |-> rows[r][ColNo(s, k, cs[j])]]]

QueryClauses(s, e) ==
    LET known == e.key \in Tables(s)
        rows  == IF known THEN s.tab[e.key].rows ELSE <<>>
        n     == Len(rows)
        sel   == Sel(rows, Lo(e), Hi(e, n))
    IN IF ~known
       THEN << <<"unknown_key", e.err = "KeyError">> >>
       ELSE CASE e.q = "read"    -> << <<"q_read", e.err = "" /\ e.rows = rows>> >>
              [] e.q = "select"  -> << <<"q_select", e.err = "" /\ e.rows = Project(s, e.key, sel, e.cols)>>,
                                       <<"q_selcols", e.got = e.cols>> >>
              [] e.q = "column"  -> << <<"q_column", e.err = "" /\
                                           \A j \in 1..Len(e.cols) :
                                             e.vals[j] = [r \in 1..Len(sel) |-> sel[r][ColNo(s, e.key, e.cols[j])]]>>,
                                       <<"q_ncolumns", Len(e.vals) = Len(e.cols)>> >>
              [] e.q = "nrows"   -> << <<"q_nrows", e.err = "" /\ e.n = n>> >>
              [] e.q = "names"   -> << <<"q_names", e.err = "" /\ e.got = Schema(s, e.key).cols>> >>
              [] e.q = "chunks"  ->
                   << <<"q_chunkrows", e.err = "" /\ Concat(e.chunks) = rows>>,
                      <<"q_chunksize", \A i \in 1..Len(e.chunks) :
                                        Len(e.chunks[i]) >= 1 /\ (e.size > 0 => Len(e.chunks[i]) <= e.size)>>,
                      \* about 2 GB by default: these tables come as one
                      <<"q_chunkdefault", e.size > 0 \/ Len(e.chunks) <= 1>> >>
              [] OTHER -> << <<"q_known_query", FALSE>> >>

\* big tables: e.gb GB in e.n rows; only sizes and row ids are observed
BigClauses(e) ==
    << <<"big_guard", IF e.mb > 8000 /\ ~e.force THEN e.err = "MemoryError"
                     ELSE e.err = "" /\ e.ids = [i \in 1..e.n |-> i]>>,
       <<"big_chunks", e.chunkids = [i \in 1..e.n |-> i]>>,
       <<"big_nonempty", \A i \in 1..Len(e.sizes) : e.sizes[i] >= 1>>,
       \* chunks of about 2000 MB (within half of it and whole rows), the last one shorter
       <<"q_chunkdefault", \A i \in 1..Len(e.sizes) - 1 : /\ (e.sizes[i] + 1) * e.mb * 2 >= 2000 * e.n
                                                      /\ (e.sizes[i] - 1) * e.mb * 2 <= 6000 * e.n>> >>

StoreStep(s, e) ==
    CASE e.op = "open" ->
           [s |-> [s EXCEPT !.sess = e.mode, !.nsess = @ + 1],
            c |-> << <<"open", e.err = "">> >>]
      [] e.op = "openmissing" ->
           [s |-> s, c |-> << <<"missing", e.err = "FileNotFoundError" /\ ~e.exists>> >>]
      [] e.op = "append" ->
           [s |-> DoAppend(s, e.key, e.rows),
            \* more than half a GB is not kept in memory: it goes to the file and the batches are let go
            c |-> << <<"accept", e.err = "">>, <<"released", (e.big /\ Len(e.rows) > 0) => e.held = 0>> >>]
      [] e.op = "write" ->
           [s |-> LET RECURSIVE W(_, _)
                      W(t, i) == IF i > Len(e.items) THEN t
                                 ELSE W(DoWrite(t, e.items[i].key, e.items[i].rows, e.items[i].idx), i + 1)
                  IN W(s, 1),
            c |-> << <<"accept", e.err = "">> >>]
      [] e.op = "meta" ->
           IF e.name \in Reserved
           THEN [s |-> s, c |-> << <<"reserved", e.err = "ValueError">> >>]
           ELSE [s |-> [s EXCEPT !.meta = MergeMeta(@, e.key, e.name, e.entries)],
                 c |-> << <<"accept", e.err = "">> >>]
      [] e.op = "mapping" ->
           [s |-> [s EXCEPT !.mapp = e.mid], c |-> << <<"accept", e.err = "">> >>]
      [] e.op = "close" ->
           [s |-> [s EXCEPT !.sess = "closed", !.exc = e.how \in {"exc", "refused"}],
            c |-> CloseClauses(s, e)]
      [] e.op = "content" -> [s |-> s, c |-> ContentClauses(s, e)]
      [] e.op = "query" -> [s |-> s, c |-> QueryClauses(s, e)]
      [] e.op = "metamiss" ->
           [s |-> s, c |-> << <<"unknown_meta", e.err = "KeyError">> >>]
      [] e.op = "big" -> [s |-> s, c |-> BigClauses(e)]
      \* a file made by another major version is announced; one without a version counts as made by version 1
      [] e.op = "version" ->
           [s |-> s, c |-> << <<"version", e.err = "" /\ e.shown = (IF e.v = <<>> THEN "1.0.0" ELSE e.want)>>,
                              <<"version_warning", LET old == IF e.v = <<>> THEN 1 ELSE e.v[1]
                                                   IN e.warned = <<old # e.pkg[1], old # e.pkg[1]>> >> >>]
      [] OTHER -> [s |-> s, c |-> << <<"known_op", FALSE>> >>]
=============================================================================
