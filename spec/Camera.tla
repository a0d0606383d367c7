------------------------------- MODULE Camera -------------------------------
(* Camera displays (plotting/camera.py).  A display is either "patch" (one square  *)
(* per pixel at its position) or "grid" (one cell per pixel at its row, column).   *)
(* Values and limits are integers in units of 1/8; positions in micrometres (grid: *)
(* in 1e-6 cells).  Not-finite values have codes; a masked pixel shows as NANV.     *)
EXTENDS Lib, TLC

NANV == -999999998
PINFV == 999999997
NINFV == -999999996
Finite(v) == v \notin {NANV, PINFV, NINFV}
Masked(img) == [i \in 1..Len(img) |-> IF Finite(img[i]) THEN img[i] ELSE NANV]

\* ---- the missing corners of a camera of 6 x 6 modules (pixels, superpixels, modules)
Corner(nr, nc, r, c) ==
    /\ nr = nc /\ nr \in {48, 24, 6}
    /\ LET k == nr \div 6 IN (r < k \/ r >= nr - k) /\ (c < k \/ c >= nc - k)
\* the number of the pixel at each cell (0: none)
CellMap(p, nr, nc) ==
    LET at == TLCEval([rc \in {<<p[i].row, p[i].col>> : i \in 1..Len(p)} |-> CHOOSE i \in 1..Len(p) : <<p[i].row, p[i].col>> = rc])
    IN [r \in 1..nr |-> [c \in 1..nc |-> IF <<r - 1, c - 1>> \in DOMAIN at THEN at[<<r - 1, c - 1>>] ELSE 0]]
GridShows(st) ==
    [r \in 1..st.nr |-> [c \in 1..st.nc |->
        LET i == st.cellmap[r][c]
        IN IF i # 0 /\ st.has THEN (IF Finite(st.img[i]) THEN st.img[i] ELSE NANV)
           ELSE IF Corner(st.nr, st.nc, r - 1, c - 1) THEN NANV ELSE 0]]

\* ---- colour range
AnyLim == [k |-> "any"]
DataRange(st) ==
    LET vs == TLCEval({v \in Range(st.img) : Finite(v) /\ (st.log => v > 0)})
    IN IF vs = {} THEN AnyLim
       ELSE [k |-> "is", lo |-> CHOOSE m \in vs : \A x \in vs : m <= x, hi |-> CHOOSE m \in vs : \A x \in vs : x <= m]
Auto(st) == IF st.has THEN DataRange(st) ELSE AnyLim
RangeOK(st, lim) ==
    CASE st.lim.k = "any" -> TRUE
      [] st.cbar /\ st.lim.lo = st.lim.hi -> lim[1] <= st.lim.lo /\ st.lim.hi <= lim[2]     \* a colour bar needs an extended range
      [] OTHER -> lim = <<st.lim.lo, st.lim.hi>>

\* ---- one operation on one display: its new state
New(e) == [kind |-> e.kind, p |-> e.p, size |-> e.size, nr |-> e.nr, nc |-> e.nc, mapped |-> e.mapped, up |-> e.up,
           cellmap |-> IF e.kind = "grid" THEN TLCEval(CellMap(e.p, e.nr, e.nc)) ELSE <<>>,
           img |-> [i \in 1..Len(e.p) |-> 0], has |-> FALSE, auto |-> TRUE, log |-> FALSE, cbar |-> FALSE, lim |-> AnyLim,
           hl |-> <<>>, texts |-> <<>>, arrows |-> 0, discs |-> 0, open |-> TRUE]
SetImage(st, v) ==
    IF Len(v) # Len(st.p) THEN st      \* refused without effect
    ELSE LET n == [st EXCEPT !.img = v, !.has = TRUE] IN IF st.auto THEN [n EXCEPT !.lim = DataRange(n)] ELSE n
SetLimits(st, lo, hi) == [st EXCEPT !.lim = [k |-> "is", lo |-> lo, hi |-> hi], !.auto = FALSE]
Reset(st) == [st EXCEPT !.auto = TRUE, !.lim = Auto(st)]
\* log scaling takes its range from the positive data, whatever the range before
SetLog(st) == LET n == [st EXCEPT !.log = TRUE] IN [n EXCEPT !.lim = Auto(n)]
Highlight(st, sel, lw) == [st EXCEPT !.hl = Append(@, [on |-> SeqToSet(sel), lw |-> lw])]
At(st, i) == IF st.kind = "patch" THEN <<st.p[i].x, st.p[i].y>> ELSE <<st.p[i].col * 1000000, st.p[i].row * 1000000>>
TextAt(st, i, t) == [st EXCEPT !.texts = Append(@, <<At(st, i)[1], At(st, i)[2], t>>)]
TextAll(st, ts) ==
    IF Len(ts) # Len(st.p) THEN st
    ELSE [st EXCEPT !.texts = @ \o [i \in 1..Len(ts) |-> <<At(st, i)[1], At(st, i)[2], ts[i]>>]]

\* ---- module labels above and below the camera
TwoDigits(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
EdgeOf(st, top) ==
    LET p == st.p
        cols == {p[i].col : i \in 1..Len(p)}
        End(c) == LET is == {i \in 1..Len(p) : p[i].col = c}
                  IN CHOOSE i \in is : \A j \in is : IF top THEN p[j].row <= p[i].row ELSE p[j].row >= p[i].row
    IN {p[End(c)].slot : c \in cols}
LabelOK(st, slot, top, t) ==
    LET g == TLCEval(SelectSeq(st.p, LAMBDA r : r.slot = slot))
        n == Len(g)
        Sum(f) == SumSeq([i \in 1..n |-> g[i][f]])
        Hi(f) == MaxSeq([i \in 1..n |-> g[i][f]])
        Lo(f) == MinSeq([i \in 1..n |-> g[i][f]])
    IN /\ t[3] = "TM" \o TwoDigits(slot)
       /\ IF st.kind = "patch"
          THEN /\ Abs(t[1] * n - Sum("x")) <= 2 * n
               /\ Abs(10 * (t[2] - IF top THEN Hi("y") ELSE Lo("y")) - IF top THEN 7 * st.size ELSE -7 * st.size) <= 20
          ELSE /\ Abs((t[1] \div 100) * n - Sum("col") * 10000) <= 2 * n
               /\ LET off == (st.nr * 1000000) \div 48 + 400000
                  IN Abs(t[2] - IF top THEN Hi("row") * 1000000 + off ELSE Lo("row") * 1000000 - off) <= 2
EdgeLabels(st, ts) ==
    LET tops == TLCEval(EdgeOf(st, TRUE))
        bots == TLCEval(EdgeOf(st, FALSE))
        n == Cardinality(tops)
    IN /\ Len(ts) = n + Cardinality(bots)
       /\ \A m \in tops : \E i \in 1..Len(ts) : LabelOK(st, m, TRUE, ts[i])
       /\ \A m \in bots : \E i \in 1..Len(ts) : LabelOK(st, m, FALSE, ts[i])
Flashers(st, ts) ==
    LET x == st.up.xl
        y == st.up.yl + 2 * st.size
        pos == << <<x, y>>, <<-x, y>>, <<x, -y>>, <<-x, -y>> >>
    IN Len(ts) = 4 /\ \A i \in 1..4 : Near(ts[i][1], pos[i][1], 2) /\ Near(ts[i][2], pos[i][2], 2) /\ ts[i][3] = ToString(i - 1)

\* ---- what a display shows
SameTexts(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][3] = b[i][3] /\ Near(a[i][1], b[i][1], 2) /\ Near(a[i][2], b[i][2], 2)
Shows(st, o) ==
  << <<"image", IF st.kind = "patch" THEN o.v = Masked(st.img) ELSE o.v = GridShows(st)>>,
     <<"range", RangeOK(st, o.lim)>>,
     <<"texts", SameTexts(st.texts, o.texts)>>,
     <<"highlight", /\ Len(o.hl) = Len(st.hl)
                    /\ \A k \in 1..Len(st.hl) : SeqToSet(o.hl[k].on) = st.hl[k].on /\ SeqToSet(o.hl[k].lw) \subseteq {st.hl[k].lw}
                                                /\ o.hl[k].outline>>,
     <<"painted", o.painted>>,
     <<"shapes", o.arrows = st.arrows /\ o.discs = st.discs>>,
     <<"position", st.kind = "patch" => /\ Len(o.pos) = Len(st.p)
                                        /\ \A i \in 1..Len(st.p) : /\ Near(o.pos[i][1], st.p[i].x, 2) /\ Near(o.pos[i][2], st.p[i].y, 2)
                                                                   /\ Near(o.pos[i][3], st.size + 100, 101) /\ Near(o.pos[i][4], st.size + 100, 101)>> >>
AllShow(ds, obs) == Concat([k \in 1..Len(ds) |-> IF ds[k].open THEN Shows(ds[k], obs[k]) ELSE <<>>])

CameraInit(cfg) == [d |-> <<>>]
Op(st, e) ==       \* new state, and the clauses of the operation itself
  LET ok == << <<"no_error", e.err = "">> >>
  IN CASE e.op = "image" -> [s |-> SetImage(st, e.v), c |-> IF Len(e.v) # Len(st.p) THEN << <<"refused", e.err # "" /\ e.same>> >>
                                                            ELSE ok \o << <<"given_image", e.same>> >>]
    [] e.op = "mutate" -> [s |-> st, c |-> ok]
    [] e.op = "limits" -> [s |-> SetLimits(st, e.lo, e.hi), c |-> ok]
    [] e.op = "reset" -> [s |-> Reset(st), c |-> ok]
    [] e.op = "log" -> [s |-> SetLog(st), c |-> ok]
    [] e.op = "colorbar" -> [s |-> [st EXCEPT !.cbar = TRUE], c |-> ok \o << <<"colorbar", e.bound>> >>]
    [] e.op = "cmap" -> [s |-> st, c |-> ok \o << <<"cmap", e.got = e.name>> >>]
    [] e.op = "highlight" -> [s |-> Highlight(st, e.sel, e.lw), c |-> ok \o << <<"highlight", e.added>> >>]
    [] e.op = "text" -> [s |-> TextAt(st, e.i, e.t), c |-> ok]
    [] e.op = "texts" -> [s |-> TextAll(st, e.ts), c |-> IF Len(e.ts) # Len(st.p) THEN << <<"refused", e.err # "">> >> ELSE ok]
    [] e.op = "edge" -> [s |-> [st EXCEPT !.texts = @ \o e.added], c |-> ok \o << <<"edge_labels", IF st.mapped THEN EdgeLabels(st, e.added) ELSE e.added = <<>>>> >>]
    [] e.op = "led" -> [s |-> IF st.mapped THEN [st EXCEPT !.texts = @ \o e.added, !.discs = @ + 4] ELSE st,
                        c |-> ok \o << <<"led", IF st.mapped THEN Flashers(st, e.added) ELSE e.added = <<>>>> >>]
    [] e.op = "up" -> LET k == IF st.kind = "patch" THEN <<st.up.xl, st.up.yl, st.up.xu, st.up.yu>> ELSE <<st.up.cl, st.up.rl, st.up.cu, st.up.ru>>
                      IN [s |-> IF st.mapped THEN [st EXCEPT !.texts = Append(@, <<k[1], k[2], "ON-Telescope UP">>), !.arrows = @ + 1] ELSE st,
                          c |-> ok \o << <<"up", ~st.mapped \/ e.arrow = <<k[1], k[2], k[3] - k[1], k[4] - k[2]>> >> >>]
    [] e.op = "save" -> [s |-> [st EXCEPT !.open = FALSE], c |-> ok \o << <<"saved", e.saved>> >>]
    [] OTHER -> [s |-> st, c |-> << <<"TypeOK", FALSE>> >>]
CameraStep(s, e) ==
    IF e.op = "new"
    THEN IF e.bad THEN [s |-> s, c |-> << <<"refused", e.err # "">> >>]
         ELSE IF e.err # "" THEN [s |-> s, c |-> << <<"no_error", FALSE>> >>]
         ELSE LET n == [d |-> Append(s.d, TLCEval(New(e)))] IN [s |-> n, c |-> << <<"no_error", TRUE>> >> \o AllShow(n.d, e.obs)]
    ELSE LET r == Op(s.d[e.d], e)
             n == [d |-> [s.d EXCEPT ![e.d] = r.s]]
         IN [s |-> n, c |-> r.c \o AllShow(n.d, e.obs)]
=============================================================================
