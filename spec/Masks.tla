-------------------------------- MODULE Masks --------------------------------
(* Pixel mask files and the PixelMasks objects made from them                    *)
(* (calib/pixel_masks.py).  Masks are sets of indices; files are named by          *)
(* (date, time) and hold flags per pixel.                                        *)
EXTENDS Lib, TLC

Spread(hv) == UNION {{4 * h, 4 * h + 1, 4 * h + 2, 4 * h + 3} : h \in hv}
SpOf(pix) == {p \div 4 : p \in pix}

\* a file: [date, time, dead, low, pix] with pix the pixels flagged bad_hv
Newer(f, g) == f.date > g.date \/ (f.date = g.date /\ f.time > g.time)
Latest(files) == CHOOSE f \in files : \A g \in files : g = f \/ Newer(f, g)
Loaded(f) == [dead |-> f.dead, low |-> f.low, hv |-> SpOf(f.pix)]
Union(a, b) == [dead |-> a.dead \cup b.dead, low |-> a.low \cup b.low, hv |-> a.hv \cup b.hv]
All(m) == m.dead \cup m.low \cup Spread(m.hv)
AsFile(m, d, t) == [date |-> d, time |-> t, dead |-> m.dead, low |-> m.low, pix |-> Spread(m.hv)]

F(r) == [date |-> r.date, time |-> r.time, dead |-> SeqToSet(r.dead), low |-> SeqToSet(r.low), pix |-> SeqToSet(r.pix)]

MasksInit(cfg) == [files |-> {F(cfg.files[i]) : i \in 1..Len(cfg.files)},
                   inst |-> [i \in {} |-> 0]]

\* what an instance shows
Shows(o, m) == /\ SeqToSet(o.dead) = m.dead /\ SeqToSet(o.low) = m.low /\ SeqToSet(o.hv) = m.hv
               /\ o.sizes = <<2048, 2048, 512>>
With(s, i, m) == [k \in (DOMAIN s.inst) \cup {i} |-> IF k = i THEN m ELSE s.inst[k]]
\* every instance is looked at after every operation
Seen(e, inst) == {e.obs[i].inst : i \in 1..Len(e.obs)} = DOMAIN inst
                 /\ \A i \in 1..Len(e.obs) : Shows(e.obs[i], inst[e.obs[i].inst])
AllSeen(e, inst) == \A i \in 1..Len(e.obs) : e.obs[i].inst \in DOMAIN inst =>
                        SeqToSet(e.obs[i].all) = All(inst[e.obs[i].inst]) /\ e.obs[i].nall = 2048
Named(s, e) == CHOOSE f \in s.files : f.date = e.date /\ f.time = e.time
Done(s, e, inst, files) ==
    [ s |-> [s EXCEPT !.inst = inst, !.files = files],
      c |-> << <<"no_error", e.err = "">>, <<"masks", Seen(e, inst)>>, <<"all_mask", AllSeen(e, inst)>> >> ]

MasksStep(s, e) ==
  CASE e.op = "latest" -> LET r == Done(s, e, With(s, e.inst, Loaded(Latest(s.files))), s.files)
                          IN [r EXCEPT !.c = <<r.c[1], <<"latest", r.c[2][2]>>, r.c[3]>>]
    [] e.op = "open"   -> Done(s, e, With(s, e.inst, Loaded(Named(s, e))), s.files)
    [] e.op = "merge"  -> Done(s, e, With(s, e.inst, Union(s.inst[e.inst], Loaded(Named(s, e)))), s.files)
    [] e.op = "mergelatest" -> Done(s, e, With(s, e.inst, Union(s.inst[e.inst], Loaded(Latest(s.files)))), s.files)
    [] e.op = "set"    -> LET m == s.inst[e.inst]
                              S == SeqToSet(e.idx)
                              up(X) == IF e.val THEN X \cup S ELSE X \ S
                          IN Done(s, e, With(s, e.inst, CASE e.mask = "dead" -> [m EXCEPT !.dead = up(@)]
                                                         [] e.mask = "low" -> [m EXCEPT !.low = up(@)]
                                                         [] e.mask = "bad_hv" -> [m EXCEPT !.hv = up(@)]), s.files)
    [] e.op = "commit" ->     \* the new file carries the current minute; an earlier one of that minute is replaced
         LET f == AsFile(s.inst[e.inst], e.date, e.time)
             r == Done(s, e, s.inst, {g \in s.files : ~(g.date = f.date /\ g.time = f.time)} \cup {f})
         IN [r EXCEPT !.c = @ \o << <<"commit_file", e.err # "" \/ (e.nnew <= 1 /\ <<e.date, e.time>> \in SeqToSet(e.now))>> >>]
    [] e.op = "plot" ->       \* pixel by pixel: dead 1, low 2, bad voltage 1/2 (in halves), the later the stronger; nothing else is coloured
         LET m == s.inst[e.inst]
             sp == Spread(m.hv)
             want == {<<p, IF p \in sp THEN 1 ELSE IF p \in m.low THEN 4 ELSE 2>> : p \in All(m)}
             r == Done(s, e, s.inst, s.files)
         IN [r EXCEPT !.c = @ \o << <<"plot", e.nimg = 1 /\ e.npix = 2048 /\ SeqToSet(e.img) = want>> >>]
    [] e.op = "convert" ->
         LET want == Concat([i \in 1..Len(e.list) |-> [j \in 1..e.n |-> e.list[i] * e.n + j - 1]])
         IN [s |-> s, c |-> << <<"no_error", e.err = "">>, <<"convert", e.out = want>> >>]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
