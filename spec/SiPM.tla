-------------------------------- MODULE SiPM --------------------------------
(* Conversion between photosensor characteristics (calib/sipm_data_sheet.py).        *)
(* A data sheet is a sequence of rows <<overvoltage, gain, crosstalk, efficiency>>    *)
(* of integers, NaN where the sheet has no entry; a question is (column, value) with  *)
(* the value in units of 1/U, an answer is in units of 1/W (W a multiple of U).       *)
EXTENDS Lib, TLC
U == 16
W == 256
NaN == -999999998

\* rows with a known entry in column k, ordered by it
Known(t, k) == {i \in 1..Len(t) : t[i][k] # NaN}
Below(t, k, v) == {i \in Known(t, k) : t[i][k] * U <= v}
Above(t, k, v) == {i \in Known(t, k) : t[i][k] * U >= v}
InRange(t, k, v) == Below(t, k, v) # {} /\ Above(t, k, v) # {}
Lo(t, k, v) == CHOOSE i \in Below(t, k, v) : \A j \in Below(t, k, v) : t[j][k] <= t[i][k]
Hi(t, k, v) == CHOOSE i \in Above(t, k, v) : \A j \in Above(t, k, v) : t[j][k] >= t[i][k]
\* neighbours of a row in the order of column k
Next1(t, k, i) == {j \in Known(t, k) : t[j][k] > t[i][k] /\ \A l \in Known(t, k) : t[l][k] > t[i][k] => t[l][k] >= t[j][k]}
Prev1(t, k, i) == {j \in Known(t, k) : t[j][k] < t[i][k] /\ \A l \in Known(t, k) : t[l][k] < t[i][k] => t[l][k] <= t[j][k]}
\* the value of column c when column k is v: linear between the two rows around it, in units of 1/W
Inter(t, k, v, c) == LET a == Lo(t, k, v)
                         b == Hi(t, k, v)
                     IN IF a = b THEN t[a][c] * W
                        ELSE t[a][c] * W + RoundDiv((v - t[a][k] * U) * (t[b][c] - t[a][c]) * (W \div U), t[b][k] - t[a][k])
\* an answer y (per column) is right: no number is invented where the sheet has none
Right(t, k, v, c, y) ==
    IF ~InRange(t, k, v) THEN y = NaN
    ELSE LET a == Lo(t, k, v)
             b == Hi(t, k, v)
         IN IF t[a][c] = NaN \/ t[b][c] = NaN THEN y = NaN
            ELSE \/ y # NaN /\ Near(y, Inter(t, k, v, c), 1)
                 \/ a = b /\ y = NaN /\ \E j \in Next1(t, k, a) \cup Prev1(t, k, a) : t[j][c] = NaN

\* s.conv[k]: the sheet converter k was made from;  s.tabs: the sheets on offer (the last one is the bundled sheet)
SiInit(cfg) == [tabs |-> cfg.tabs, conv |-> <<>>]
Named(e) == Len(e.args) = 1
SiStep(s, e) ==
  CASE e.op = "new" -> [s |-> [s EXCEPT !.conv = Append(s.conv, s.tabs[e.t])], c |-> << <<"opens", e.err = "">> >>]
    [] e.op = "ask" ->      \* e.args: seq of [k, v (a sequence of values)], e.got: per value the answers per column
       LET t == s.conv[e.c]
       IN [s |-> s,
           c |-> IF ~Named(e) THEN << <<"one_value", e.err = "ValueError">> >>
                 ELSE LET k == e.args[1].k
                          v == e.args[1].v
                      IN IF e.err # "" THEN << <<"one_value", TRUE>>,
                                               <<"answers", e.err = "ValueError" /\ \E i \in 1..Len(v) : ~InRange(t, k, v[i])>> >>
                         ELSE << <<"one_value", TRUE>>, <<"columns", e.cols = <<"gain", "opct", "pde", "vover">> >>,
                                 <<"answers", Len(e.got) = Len(v) /\ \A i \in 1..Len(v), c \in 1..4 : Right(t, k, v[i], c, e.got[i][c])>>,
                                 <<"consistent", \A i \in 1..Len(v) : LET y == e.got[i][k] IN y = NaN \/ Near(y, v[i] * (W \div U), 1)>> >>]
    [] e.op = "sheet" ->    \* the bundled sheet: a question f/4 of the way between neighbouring rows a and b (entries in fixed units)
       [s |-> s, c |-> << <<"bundled", e.err = "" /\ \A c \in 1..4 :
                              IF e.f \in {0, 4}        \* on a row: its own entry, or none next to a missing one
                              THEN LET own == IF e.f = 0 THEN e.a[c] ELSE e.b[c]
                                   IN IF e.got[c] = NaN THEN own = NaN \/ e.edge[c] ELSE own # NaN /\ Near(e.got[c], own, 1)
                              ELSE IF e.a[c] = NaN \/ e.b[c] = NaN THEN e.got[c] = NaN
                              ELSE e.got[c] # NaN /\ Near(e.got[c], e.a[c] + RoundDiv(e.f * (e.b[c] - e.a[c]), 4), 1)>> >>]
    [] e.op = "plot" ->
       LET t == s.conv[e.c]
           curve(c) == [i \in 1..Len(t) |-> <<t[i][1], t[i][c]>>]
       IN [s |-> s, c |-> << <<"plot", e.err = "" /\ e.lines = << <<"Gain", curve(2)>>, <<"OPCT", curve(3)>>, <<"PDE", curve(4)>> >> >> >>]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
