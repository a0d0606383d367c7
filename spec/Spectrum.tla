------------------------------ MODULE Spectrum ------------------------------
(* Spectrum fitters (core/spectrum_fitter.py, scripts/extract_spe.py): fit        *)
(* parameters and their flat layout, configuration files, fits.                  *)
(* A value is [r, q]: its exact representation and itself in units of 1/10000;   *)
(* limits are [r, lo, hi].  Charges are in units of 1/8.                         *)
EXTENDS Lib, TLC

\* a parameter: [name, ini, lim, fix, multi]
\* positions of the flat list: one per shared parameter, one per illumination for a multi parameter
Size(p, n) == IF p.multi THEN n ELSE 1
Start(ps, k, n) == SumSeq([j \in 1..(k - 1) |-> Size(ps[j], n)])
\* 0-based position of parameter k for illumination i (0-based)
Pos(ps, k, i, n) == Start(ps, k, n) + (IF ps[k].multi THEN i ELSE 0)
FlatLen(ps, n) == SumSeq([j \in 1..Len(ps) |-> Size(ps[j], n)])
Flat(ps, n) == Concat([k \in 1..Len(ps) |->
                  IF ps[k].multi THEN [i \in 1..n |-> [ps[k] EXCEPT !.name = ps[k].name \o ToString(i - 1)]]
                  ELSE <<ps[k]>>])

\* a fitter: [n, ps, nb, lo, hi, res] with res = <<>> or the flat values of the latest fit
NewF(e) == [n |-> e.nill, ps |-> e.params, nb |-> e.nb, lo |-> e.lo, hi |-> e.hi, res |-> <<>>]

HasName(l, name) == \E i \in 1..Len(l) : l[i].name = name
ByName(l, name) == l[CHOOSE i \in 1..Len(l) : l[i].name = name]

Updated(f, l) == [f EXCEPT !.ps = [k \in 1..Len(f.ps) |->
                     IF HasName(l, f.ps[k].name) THEN ByName(l, f.ps[k].name) ELSE f.ps[k]]]

\* a configuration file: [nb, range, initial, limits, fixed], each a sequence (empty: not named)
Saved(f) == [nb |-> <<f.nb>>, range |-> <<[lo |-> f.lo, hi |-> f.hi]>>,
             initial |-> [k \in 1..Len(f.ps) |-> [name |-> f.ps[k].name, v |-> f.ps[k].ini]],
             limits |-> [k \in 1..Len(f.ps) |-> [name |-> f.ps[k].name, v |-> f.ps[k].lim]],
             fixed |-> [k \in 1..Len(f.ps) |-> [name |-> f.ps[k].name, v |-> f.ps[k].fix]]]
Or(l, name, old) == IF HasName(l, name) THEN ByName(l, name).v ELSE old
LoadedF(f, d) == [f EXCEPT !.nb = IF d.nb = <<>> THEN @ ELSE d.nb[1],
                           !.lo = IF d.range = <<>> THEN @ ELSE d.range[1].lo,
                           !.hi = IF d.range = <<>> THEN @ ELSE d.range[1].hi,
                           !.ps = [k \in 1..Len(f.ps) |->
                               [f.ps[k] EXCEPT !.ini = Or(d.initial, f.ps[k].name, @),
                                               !.lim = Or(d.limits, f.ps[k].name, @),
                                               !.fix = Or(d.fixed, f.ps[k].name, @)]]]
\* the result of the latest fit becomes the initial values (illumination i for multi parameters)
UpInit(f, i) == [f EXCEPT !.ps = [k \in 1..Len(f.ps) |->
                    [f.ps[k] EXCEPT !.ini = f.res[Pos(f.ps, k, i, f.n) + 1]]]]

\* histogram of charges: bins of equal width, the last one closed
Bin(c, lo, hi, nb) == IF c = hi THEN nb ELSE ((c - lo) * nb) \div (hi - lo) + 1
Hist(ch, f) == LET in == SelectSeq(ch, LAMBDA c : c >= f.lo /\ c <= f.hi)
                   bins == [j \in 1..Len(in) |-> Bin(in[j], f.lo, f.hi, f.nb)]
               IN [k \in 1..f.nb |-> Cardinality({j \in 1..Len(in) : bins[j] = k})]
W2(f) == 2 * ((f.hi - f.lo) \div f.nb)          \* bin width in units of 1/16
Edges(f) == [k \in 1..(f.nb + 1) |-> 2 * f.lo + (k - 1) * W2(f)]
Mids(f) == [k \in 1..f.nb |-> 2 * f.lo + (k - 1) * W2(f) + (W2(f) \div 2)]

\* the drivers' likelihood is a sum of squares: its minimum is known
MeanOf(h, x) == LET n == SumSeq(h)
                IN IF n = 0 THEN 0 ELSE RoundDiv(SumSeq([k \in 1..Len(h) |-> h[k] * x[k]]) * 10000, 16 * n)
Target(f, hs, k, i, off) == LET x == Mids(f)
                                m == [j \in 1..f.n |-> MeanOf(hs[j], x)]
                            IN off[f.ps[k].name] * 10000
                               + (IF f.ps[k].multi THEN m[i] ELSE RoundDiv(SumSeq(m), f.n))

\* what makes a fit result: the settings and the charges
Key(f, ch) == [flat |-> Flat(f.ps, f.n), n |-> f.n, nb |-> f.nb, lo |-> f.lo, hi |-> f.hi, ch |-> ch]
Known(memo, k) == \E m \in memo : m.k = k
Same(memo, k, code) == \A m \in memo : m.k = k => m.code = code

\* what a fitter shows
ShowsP(o, f) == o.params = f.ps
ShowsSet(o, f) == <<o.nb, o.lo, o.hi, o.n>> = <<f.nb, f.lo, f.hi, f.n>>
ShowsNames(o, f) == LET fl == Flat(f.ps, f.n) IN o.names = [j \in 1..Len(fl) |-> fl[j].name]
ShowsKw(o, f) == LET fl == Flat(f.ps, f.n)
                 IN o.nkw = 3 * Len(fl) /\ o.kw = [j \in 1..Len(fl) |-> <<fl[j].ini.r, fl[j].lim.r, fl[j].fix>>]
ShowsLook(l, f) == Len(l) = f.n /\ \A i \in 1..f.n :
                      /\ DOMAIN l[i] = {f.ps[k].name : k \in 1..Len(f.ps)}
                      /\ \A k \in 1..Len(f.ps) : l[i][f.ps[k].name] = Pos(f.ps, k, i - 1, f.n)
ObsClauses(e, fs) ==
    LET ok(P(_, _)) == \A j \in 1..Len(e.obs) : P(e.obs[j], fs[e.obs[j].f])
    IN << <<"params", ok(ShowsP) /\ \A j \in 1..Len(e.obs) : e.obs[j].attrs>>,
          <<"bins_range", ok(ShowsSet)>>,
          <<"flat_names", ok(ShowsNames)>>,
          <<"fit_settings", ok(ShowsKw)>>,
          <<"lookup", ok(LAMBDA o, f : ShowsLook(o.lookup, f))>>,
          <<"lookup_typed", ok(LAMBDA o, f : ShowsLook(o.typed, f))>> >>

SpectrumInit(cfg) == [f |-> [i \in {} |-> 0], files |-> [i \in {} |-> 0], memo |-> {}, off |-> cfg.off, real |-> cfg.real]
Put(fn, k, v) == [x \in (DOMAIN fn) \cup {k} |-> IF x = k THEN v ELSE fn[x]]

\* one fit: histograms, names, values (o is the logged fit)
FitClauses(s, f, ch, o) ==
    LET fl == Flat(f.ps, f.n)
        hs == TLCEval([i \in 1..f.n |-> Hist(ch[i], f)])
    IN << <<"histogram", o.hist = hs>>,
          <<"hist_axis", o.x = Mids(f) /\ o.edges = Edges(f)>>,
          <<"curve", o.curve = <<2 * f.lo, 2 * f.hi, 10 * f.nb>> /\ Len(o.area) = f.n
                     /\ \A i \in 1..f.n : SumSeq(hs[i]) > 0 => Near(o.area[i], 1000, 2)>>,
          <<"result_names", o.names = [j \in 1..Len(fl) |-> fl[j].name] /\ o.enames = o.names>>,
          <<"fixed", \A j \in 1..Min(Len(fl), Len(o.vals)) : fl[j].fix => Near(o.vals[j].q, fl[j].ini.q, 2)>>,
          <<"limits", \A j \in 1..Min(Len(fl), Len(o.vals)) :
                          ~fl[j].fix => o.vals[j].q \in (fl[j].lim.lo - 2)..(fl[j].lim.hi + 2)>>,
          <<"minimum", s.real \/ \A i \in 1..f.n : \A k \in 1..Len(f.ps) :
                LET t == Target(f, hs, k, i, s.off)
                    p == f.ps[k]
                IN (~p.fix /\ t - p.lim.lo > 30000 /\ p.lim.hi - t > 30000
                    /\ p.ini.q - p.lim.lo > 30000 /\ p.lim.hi - p.ini.q > 30000
                    /\ Pos(f.ps, k, i - 1, f.n) < Len(o.vals))
                   => Near(o.vals[Pos(f.ps, k, i - 1, f.n) + 1].q, t, 300)>> >>

Inside(fl, v) == Clamp(v.q, fl.lim.lo, fl.lim.hi)

SpectrumStep(s, e) ==
  CASE e.op = "new" ->
       LET fs == Put(s.f, e.f, NewF(e))
       IN [ s |-> [s EXCEPT !.f = fs], c |-> << <<"no_error", e.err = "">> >> \o ObsClauses(e, fs) ]
    [] e.op = "update" ->
       LET fs == Put(s.f, e.f, Updated(s.f[e.f], e.list))
       IN [ s |-> [s EXCEPT !.f = fs], c |-> << <<"no_error", e.err = "">> >> \o ObsClauses(e, fs) ]
    [] e.op = "save" ->
       [ s |-> [s EXCEPT !.files = Put(s.files, e.file, Saved(s.f[e.f]))],
         c |-> << <<"no_error", e.err = "">> >> \o ObsClauses(e, s.f) ]
    [] e.op = "write" -> [ s |-> [s EXCEPT !.files = Put(s.files, e.file, e.doc)], c |-> <<>> ]
    [] e.op = "load" ->
       LET fs == Put(s.f, e.f, LoadedF(s.f[e.f], s.files[e.file]))
       IN [ s |-> [s EXCEPT !.f = fs], c |-> << <<"no_error", e.err = "">> >> \o ObsClauses(e, fs) ]
    [] e.op = "fit" ->
       LET f == s.f[e.f]
           k == Key(f, e.ch)
           fs == Put(s.f, e.f, [f EXCEPT !.res = e.vals])
           fl == Flat(f.ps, f.n)
       IN IF e.err # "" THEN [s |-> s, c |-> << <<"no_error", FALSE>> >>]
          ELSE [ s |-> [s EXCEPT !.f = fs, !.memo = @ \cup {[k |-> k, code |-> e.code]}],
                 c |-> << <<"no_error", TRUE>> >> \o FitClauses(s, f, e.ch, e)
                       \o << <<"first_call", s.real \/ (Len(e.first) = Len(fl) /\ \A j \in 1..Len(fl) :
                                                Near(e.first[j], Inside(fl[j], fl[j].ini), 100))>>,
                             <<"fit_lookup", s.real \/ ShowsLook(e.used, f)>>,
                             <<"same_result", Same(s.memo, k, e.code)>> >> \o ObsClauses(e, fs) ]
    [] e.op = "upinit" ->
       LET f == s.f[e.f]
           fs == IF f.res = <<>> THEN s.f ELSE Put(s.f, e.f, UpInit(f, e.ill))
       IN [ s |-> [s EXCEPT !.f = fs],
            c |-> << <<"no_error", (e.err = "") = (f.res # <<>>)>>, <<"not_fitted", f.res = <<>> => e.err = "ValueError">> >>
                  \o ObsClauses(e, fs) ]
    \* all pixels of a camera; ch[pixel][illumination]
    [] e.op = "pixels" ->
       LET f == IF e.script THEN LoadedF(NewF(e), e.doc) ELSE s.f[e.f]
           n == Len(e.ch)
           keys == TLCEval([p \in 1..n |-> Key(f, e.ch[p])])
           here == {r \in 1..Len(e.out) : e.out[r].pixel \in 0..(n - 1)}
       IN IF e.err # "" THEN [s |-> s, c |-> << <<"no_error", FALSE>> >>]
          ELSE [ s |-> [s EXCEPT !.memo = @ \cup {[k |-> keys[e.out[r].pixel + 1], code |-> e.out[r].code] : r \in here},
                                 !.f = IF e.script THEN s.f ELSE @],
                 c |-> << <<"no_error", TRUE>>,
                          <<"each_pixel", Len(e.out) = n /\ {e.out[r].pixel : r \in 1..Len(e.out)} = 0..(n - 1)
                                          /\ \A r \in 1..Len(e.out) : e.out[r].labels = <<e.out[r].pixel, e.out[r].pixel, e.out[r].pixel>> >>,
                          <<"pixel_order", e.script => e.order = << [p \in 1..n |-> p - 1], [p \in 1..n |-> p - 1], [p \in 1..n |-> p - 1] >> >> >>
                       \o Concat([r \in 1..Len(e.out) |-> IF r \in here THEN FitClauses(s, f, e.ch[e.out[r].pixel + 1], e.out[r]) ELSE <<>>])
                       \o << <<"same_result", \A r \in here : Same(s.memo, keys[e.out[r].pixel + 1], e.out[r].code)>>,
                             <<"pixels_agree", \A r, q \in here : keys[e.out[r].pixel + 1] = keys[e.out[q].pixel + 1] => e.out[r].code = e.out[q].code>>,
                             <<"physics", \A r \in here : \A j \in 1..Len(e.lam) : Near(e.out[r].lam[j], e.lam[j], 300)>> >> ]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
