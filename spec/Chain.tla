-------------------------------- MODULE Chain --------------------------------
(* Building and running WaveformReducerChain (core/chain.py, core/reducer.py). *)
(* A configuration is merged from the package defaults, an optional file and   *)
(* keyword settings; it decides which columns are extracted and which reducers  *)
(* exist.  Settings are sequences of [k |-> name, v |-> value, t |-> truthy].    *)
EXTENDS Lib, TLC

DefaultOn == {"baseline_end_mean", "baseline_end_rms", "baseline_start_mean", "baseline_start_rms", "waveform_mean",
              "waveform_rms", "saturation_sum", "t_averagewf", "charge_averagewf", "t_cc", "charge_cc", "height_cc"}
DefaultOff == {"t_event", "t_pulse", "t_pulse_amp", "t_rise", "fwhm", "t_cc_local", "charge_cc_local", "height_cc_local",
               "t_cc_nn", "charge_cc_nn", "height_cc_nn", "t_local", "charge_local", "t_nn", "charge_nn",
               "charge_nnls", "nnls_tcharge", "nnls_tmcharge", "nnls_tccharge", "nnls_norm", "nnls_npulses", "nnls_errata",
               "t_sliding", "charge_sliding", "t_sliding_local", "charge_sliding_local", "t_sliding_nn",
               "charge_sliding_nn", "sp_argmax", "sp_max"}
Builtin == DefaultOn \cup DefaultOff \cup {"waveform_max", "flasher_unit"}
CCCols == {"t_cc", "charge_cc", "height_cc", "t_cc_local", "charge_cc_local", "height_cc_local",
           "t_cc_nn", "charge_cc_nn", "height_cc_nn"}
NNCols == {"t_cc_nn", "charge_cc_nn", "height_cc_nn", "t_nn", "charge_nn", "t_sliding_nn", "charge_sliding_nn"}
CtapipeCols == {"t_cc_nn", "charge_cc_nn", "height_cc_nn", "t_nn", "charge_nn", "t_local", "charge_local", "t_sliding",
                "charge_sliding", "t_sliding_local", "charge_sliding_local", "t_sliding_nn", "charge_sliding_nn"}

\* settings as a function from names to values
Fn(seq) == [k \in {seq[i].k : i \in 1..Len(seq)} |->
              LET i == CHOOSE i \in 1..Len(seq) : seq[i].k = k /\ \A j \in 1..Len(seq) : seq[j].k = k => j <= i
              IN [v |-> seq[i].v, t |-> seq[i].t]]
Over(f, g) == [k \in (DOMAIN f) \cup (DOMAIN g) |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Defaults == [c \in DefaultOn \cup DefaultOff |->
               IF c \in DefaultOn THEN [v |-> "True", t |-> TRUE] ELSE [v |-> "False", t |-> FALSE]]

Merged(hasfile, file, kw) == TLCEval(IF hasfile THEN Over(Fn(file), Fn(kw)) ELSE Over(Defaults, Fn(kw)))
Active(m, known) == {c \in known : c \in DOMAIN m /\ m[c].t}

\* a reducer needing something that is not there refuses to be built
Refusals(act, e) == (IF act \cap CCCols # {} /\ ~e.ref THEN {"ValueError"} ELSE {})
              \cup (IF act \cap NNCols # {} /\ ~e.mapping THEN {"ValueError"} ELSE {})
              \cup (IF act \cap CtapipeCols # {} /\ ~e.ctapipe THEN {"ImportError"} ELSE {})

ChainInit(cfg) == [user |-> cfg.user, memo |-> [x \in {} |-> 0], past |-> <<>>]

UserCols(s) == UNION {SeqToSet(s.user[i].cols) : i \in 1..Len(s.user)}

ChainStep(s, e) ==
  CASE e.op = "build" ->
       LET m   == Merged(e.hasfile, e.file, e.kw)
           act == Active(m, Builtin \cup UserCols(s))
           ref == Refusals(act, e)
           want == {s.user[i].name : i \in {j \in 1..Len(s.user) : SeqToSet(s.user[j].cols) \cap act # {}}}
       IN [ s |-> s,
            c |-> << <<"refused", IF ref = {} THEN e.err = "" ELSE e.err \in ref>>,
                     <<"columns", e.err # "" \/ ref # {} \/ (SeqToSet(e.columns) = act /\ Len(e.columns) = Cardinality(act))>>,
                     <<"config", e.err # "" \/ ref # {} \/ Fn(e.config) = m>>,
                     <<"constructed", e.err # "" \/ ref # {} \/
                          (/\ {e.made[i].name : i \in 1..Len(e.made)} = want
                           /\ Len(e.made) = Cardinality(want))>>,
                     <<"settings", \A i \in 1..Len(e.made) :
                          /\ e.made[i].dims = e.dims
                          /\ LET r == Fn(e.made[i].got)
                                 \* every setting that is not a column name
                                 keys == (DOMAIN m) \ (Builtin \cup UserCols(s))
                             IN \A k \in keys : k \in DOMAIN r /\ r[k] = m[k]>> >> ]
    [] e.op = "process" ->
       LET key(i) == <<e.config, e.event, e.obs[i].col>>
           keys == {key(i) : i \in 1..Len(e.obs)}
           val(k) == (CHOOSE i \in 1..Len(e.obs) : key(i) = k)
       IN [ s |-> [s EXCEPT !.memo = [k \in (DOMAIN s.memo) \cup keys |->
                                        IF k \in DOMAIN s.memo THEN s.memo[k] ELSE e.obs[val(k)].code],
                            !.past = Append(@, [i \in 1..Len(e.obs) |-> e.obs[i].code])],
            c |-> << <<"processed", e.err = "">>,
                     <<"columns_returned", {e.obs[i].col : i \in 1..Len(e.obs)} = SeqToSet(e.active)>>,
                     <<"same_value", \A i \in 1..Len(e.obs) : key(i) \in DOMAIN s.memo => s.memo[key(i)] = e.obs[i].code>>,
                     <<"input_unchanged", e.before = e.after>>,
                     <<"earlier_results", e.past = s.past>> >> ]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
