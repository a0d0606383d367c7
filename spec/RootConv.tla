------------------------------ MODULE RootConv ------------------------------
(* Conversion of a DL1 file to ROOT trees (scripts/convert_hd52root.py).              *)
(* A file is [name, base, meta, cols, map]: metadata entries <<key, kind, value>> with *)
(* kind str, num or time; columns <<name, type, values>> (a time is <<s, ns>>).        *)
EXTENDS Lib, TLC

\* what the metadata become: strings as they are, nothing as the word "None", the others as numbers (times in nanoseconds)
Strings(f) == {<<f.meta[i][1], f.meta[i][3]>> : i \in {j \in 1..Len(f.meta) : f.meta[j][2] = "str"}}
              \cup {<<f.meta[i][1], "None">> : i \in {j \in 1..Len(f.meta) : f.meta[j][2] = "none"}}
Numbers(f) == {<<f.meta[i][1], f.meta[i][3]>> : i \in {j \in 1..Len(f.meta) : f.meta[j][2] \in {"num", "time"}}}
\* a table keeps its columns, their order, types and values; times become 64-bit integers
Stored(cols) == [i \in 1..Len(cols) |-> <<cols[i][1], IF cols[i][2] = "time" THEN "i8" ELSE cols[i][2], cols[i][3]>>]

RcInit(cfg) == [files |-> cfg.files]
RcStep(s, e) ==
  IF e.op # "convert" THEN [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
  ELSE IF e.f = 0 THEN [s |-> s, c |-> << <<"missing_input", e.err # "other" /\ e.written = <<>> >> >>]
  ELSE LET f == s.files[e.f]
           out == IF e.out = "" THEN f.base \o ".root" ELSE e.out
       IN [s |-> s,
           c |-> << <<"no_error", e.err = "">>,
                    <<"input_unchanged", e.same>>,
                    <<"written", e.err = "" => (e.written = <<out>> /\ e.mode = "recreate" /\ e.calls = <<"Write", "Close">>)>>,
                    <<"trees", e.err = "" => e.trees = <<"tMeta", "tData", "tMapping">> >>,
                    <<"meta_strings", e.err = "" => (SeqToSet(e.strs) = Strings(f) /\ Len(e.strs) = Cardinality(Strings(f)) /\ e.leaves)>>,
                    <<"meta_numbers", e.err = "" => (SeqToSet(e.nums) = Numbers(f) /\ Len(e.nums) = Cardinality(Numbers(f)))>>,
                    <<"data", e.err = "" => e.data = Stored(f.cols)>>,
                    <<"mapping", e.err = "" => e.map = Stored(f.map)>> >>]
=============================================================================
