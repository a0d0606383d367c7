------------------------------- MODULE Mapping -------------------------------
(* Camera geometry (utils/mapping.py).  A mapping is a sequence of pixels, each    *)
(* [px, slot, asic, sp, row, col, x, y] with integer positions (micrometres).     *)
EXTENDS Lib, TLC

Uniq(s) == {s[i] : i \in 1..Len(s)}
\* the members of a group, in table order
Of(m, f, v) == SelectSeq(m, LAMBDA r : r[f] = v)
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Total(g, f) == SumSeq([i \in 1..Len(g) |-> g[i][f]])

\* one row of a grouped mapping: k pixels per side; x, y observed times the group size
GroupRow(g, k, r) ==
    /\ \A i \in 1..Len(g) : r.row = g[i].row \div k /\ r.col = g[i].col \div k
    /\ Abs(r.x - Total(g, "x")) <= 1
    /\ Abs(r.y - Total(g, "y")) <= 1
GridMeta(rows, md, size, k) ==
    /\ md.n_rows = MaxSeq([i \in 1..Len(rows) |-> rows[i].row]) + 1
    /\ md.n_columns = MaxSeq([i \in 1..Len(rows) |-> rows[i].col]) + 1
    /\ md.size = k * size
Grouped(m, f, k, rows) ==
    << <<"each_once", Increasing([i \in 1..Len(rows) |-> rows[i].id]) /\ {rows[i].id : i \in 1..Len(rows)} = {m[i][f] : i \in 1..Len(m)}>>,
       <<"group", \A i \in 1..Len(rows) : LET g == TLCEval(Of(m, f, rows[i].id)) IN g # <<>> /\ GroupRow(g, k, rows[i])>> >>
MappingInit(cfg) == [m |-> cfg.m, size |-> cfg.size, n |-> 0]
MappingStep(s, e) ==
  IF e.err # "" THEN [s |-> s, c |-> << <<"no_error", FALSE>> >>]
  ELSE
  LET keep == << <<"no_error", TRUE>>, <<"mapping_unchanged", e.kept>> >>
  IN CASE e.op = "superpixel" ->
       [s |-> [s EXCEPT !.n = @ + 1],
        c |-> keep \o Grouped(s.m, "sp", 2, e.rows) \o
              << <<"slot", \A i \in 1..Len(e.rows) : LET g == Of(s.m, "sp", e.rows[i].id)
                                                     IN g # <<>> /\ g[1].slot = e.rows[i].slot /\ g[1].asic = e.rows[i].asic>>,
                 <<"grid", GridMeta(e.rows, e.md, s.size, 2)>>, <<"other_metadata", e.mdrest>> >>]
    [] e.op = "module" ->
       [s |-> [s EXCEPT !.n = @ + 1],
        c |-> keep \o Grouped(s.m, "slot", 8, e.rows) \o
              << <<"grid", GridMeta(e.rows, e.md, s.size, 8)>>, <<"other_metadata", e.mdrest>> >>]
    [] e.op = "rowcol" ->      \* positions possibly of some pixels in another order: e.at, 1-based
       [s |-> s, c |-> keep \o << <<"rowcol", e.rows = [i \in 1..Len(e.at) |-> s.m[e.at[i]].row]
                                             /\ e.cols = [i \in 1..Len(e.at) |-> s.m[e.at[i]].col]>>,
                                  <<"positions_unchanged", e.same>> >>]
    [] e.op = "geometry" ->
       [s |-> s, c |-> keep \o << <<"geometry", e.id = [i \in 1..Len(s.m) |-> i - 1]
                                               /\ e.x = [i \in 1..Len(s.m) |-> s.m[i].x] /\ e.y = [i \in 1..Len(s.m) |-> s.m[i].y]>> >>]
    [] e.op = "counts" ->
       LET n(f) == Cardinality({s.m[i][f] : i \in 1..Len(s.m)})
       IN [s |-> s, c |-> keep \o << <<"counts", /\ e.md.n_pixels = Len(s.m) /\ e.md.n_modules = n("slot") /\ e.md.n_superpixels = n("sp")
                                                /\ e.md.n_tmpix * e.md.n_modules = Len(s.m)
                                                /\ e.md.n_rows = n("row") /\ e.md.n_columns = n("col")
                                                /\ e.single>> >>]
    [] e.op = "roundtrip" ->
       [s |-> s, c |-> keep \o << <<"roundtrip", e.equal>> >>]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
