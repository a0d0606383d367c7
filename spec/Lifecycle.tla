----------------------------- MODULE Lifecycle -----------------------------
(* The steps of reducers and the products of factories (core/reducer.py,       *)
(* core/chain.py, core/factory.py).                                           *)
(* cfg.classes[i] = [base, cols, prep, post]: a user's reducer class deriving  *)
(* from cfg.classes[base] (0 = the package's base class) which defines the     *)
(* columns cols and may extend the preparing and the closing step; each        *)
(* extension calls its parent's first.  cfg.active = the columns switched on.  *)
(* One event's log is a sequence of <<class, step, what>>: "prepare" and       *)
(* "post" name the class whose extension ran, "column" the column evaluated.   *)
EXTENDS Lib, TLC

RECURSIVE Ext(_, _, _)
Ext(cl, i, what) == \* the extensions of a step that run for class i, parent first
    IF i = 0 THEN <<>>
    ELSE Ext(cl, cl[i].base, what) \o (IF (IF what = "prepare" THEN cl[i].prep ELSE cl[i].post) THEN <<i>> ELSE <<>>)

On(cfg, i) == {cfg.classes[i].cols[k] : k \in {j \in 1..Len(cfg.classes[i].cols) : cfg.classes[i].cols[j] \in SeqToSet(cfg.active)}}
Runs(cfg) == {i \in 1..Len(cfg.classes) : On(cfg, i) # {}}

Mine(log, i) == SelectSeq(log, LAMBDA x : x[1] = i)
Kind(log, k) == SelectSeq(log, LAMBDA x : x[2] = k)
Whats(log) == [j \in 1..Len(log) |-> log[j][3]]
IsPrefix2(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]

\* --- the step machine: one class's position in its event -------------------
\* an event is over for a class when done(c): every step in its place
InOrder(log) == \* prepare before columns before post
    \A a, b \in 1..Len(log) : a < b =>
        LET r(x) == IF x[2] = "prepare" THEN 1 ELSE IF x[2] = "column" THEN 2 ELSE 3 IN r(log[a]) <= r(log[b])
ToStr(q) == [j \in 1..Len(q) |-> ToString(q[j])]
PrepOk(cfg, i, log, whole) == LET w == Whats(Kind(log, "prepare"))
                                  x == ToStr(Ext(cfg.classes, i, "prepare"))
                              IN IF whole THEN w = x ELSE IsPrefix2(w, x)
PostOk(cfg, i, log, whole) == LET w == Whats(Kind(log, "post"))
                                  x == ToStr(Ext(cfg.classes, i, "post"))
                              IN IF whole THEN w = x ELSE IsPrefix2(w, x)
ColsOk(cfg, i, log, whole) == LET w == Whats(Kind(log, "column"))
                              IN IsInjectiveSeq(w) /\ (IF whole THEN SeqToSet(w) = On(cfg, i) ELSE SeqToSet(w) \subseteq On(cfg, i))
\* a step begins only after the ones before it are complete
Complete(cfg, i, log) ==
    /\ (Kind(log, "column") # <<>> => PrepOk(cfg, i, log, TRUE))
    /\ (Kind(log, "post") # <<>> => PrepOk(cfg, i, log, TRUE) /\ ColsOk(cfg, i, log, TRUE))

\* --- values: <<sum of the event, evaluations so far, event given to the preparing step, closings so far>>
Count(h, i, c) == Cardinality({j \in 1..Len(h) : h[j][1] = i /\ h[j][2] = "column" /\ h[j][3] = c})
Closings(cfg, h, i) == LET x == Ext(cfg.classes, i, "post")
                       IN IF x = <<>> THEN 0
                          ELSE Cardinality({j \in 1..Len(h) : h[j][1] = i /\ h[j][2] = "post" /\ h[j][3] = ToString(x[1])})
Value(cfg, h, i, c, e) == <<e.sum, Count(h, i, c) + 1,
                            IF Ext(cfg.classes, i, "prepare") = <<>> THEN -1 ELSE e.tag, Closings(cfg, h, i)>>

LifecycleInit(cfg) == [cfg |-> cfg, past |-> <<>>, made |-> 0]

LifecycleStep(s, e) ==
  LET cfg == s.cfg IN
  CASE e.op = "event" ->
       LET N == 1..Len(cfg.classes)
           planned == e.fail # <<>>
           whole(i) == ~planned
           L == TLCEval([i \in N |-> Mine(e.log, i)])
           D == {e.vals[k][1] : k \in 1..Len(e.vals)}
       IN [ s |-> [s EXCEPT !.past = @ \o e.log],
            c |-> << <<"error_through", e.err = IF planned THEN e.exc ELSE "">>,
                     <<"column_once", \A i \in Runs(cfg) : ColsOk(cfg, i, L[i], whole(i))>>,
                     <<"inactive_silent", \A i \in N : SeqToSet(Whats(Kind(L[i], "column"))) \subseteq On(cfg, i)>>,
                     <<"prepare_once", \A i \in Runs(cfg) : PrepOk(cfg, i, L[i], whole(i))>>,
                     <<"post_once", \A i \in Runs(cfg) : PostOk(cfg, i, L[i], whole(i))>>,
                     <<"order", \A i \in Runs(cfg) : InOrder(L[i]) /\ Complete(cfg, i, L[i])>>,
                     <<"fails_there", ~planned \/
                         LET f == e.fail
                             l == L[f[1]]
                         IN Len(l) > 0 /\ l[Len(l)] = <<f[1], f[2], f[3]>> >>,
                     <<"column_set", planned \/ D = UNION {On(cfg, i) : i \in N}>>,
                     <<"value", planned \/ \A k \in 1..Len(e.vals) : \A i \in N :
                         e.vals[k][1] \in On(cfg, i) => e.vals[k][2] = Value(cfg, s.past, i, e.vals[k][1], e)>> >> ]
    [] e.op = "produce" ->
       LET known == e.name \in SeqToSet(cfg.names)
       IN [ s |-> [s EXCEPT !.made = IF known THEN @ + 1 ELSE @],
            c |-> << <<"unknown_refused", (e.err = "KeyError") = ~known>>,
                     <<"named", ~known \/ (e.err = "" /\ e.got = e.name)>>,
                     <<"arguments", ~known \/ (e.gotargs = e.args /\ e.gotkw = e.kw)>>,
                     <<"fresh", ~known \/ e.distinct = s.made + 1>> >> ]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
