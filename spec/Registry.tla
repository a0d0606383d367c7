------------------------------ MODULE Registry ------------------------------
(* Reducer classes and their columns (core/reducer.py, core/__init__.py).       *)
(* A class definition is [name, bases, cols, absm, impl]; classes may be        *)
(* defined again under the same name.  bases are indices of earlier definitions *)
(* that succeeded (0 = the package's base class).                              *)
EXTENDS Lib, TLC

RegistryInit(cfg) == [owner |-> [c \in {} |-> ""],     \* column -> class name that defined it first
                      classes |-> <<>>]                \* definitions, ok or refused

\* columns are taken in the order of the class body; the first foreign one is refused
Refused(s, e) == \E i \in 1..Len(e.cols) : e.cols[i] \in DOMAIN s.owner /\ s.owner[e.cols[i]] # e.name
Taken(s, e) == \* columns registered although the definition may be refused later
    {e.cols[i] : i \in {j \in 1..Len(e.cols) : \A k \in 1..j :
        ~(e.cols[k] \in DOMAIN s.owner /\ s.owner[e.cols[k]] # e.name)}}

RECURSIVE Inherited(_, _)
Inherited(cl, i) == UNION {IF b = 0 THEN {} ELSE SeqToSet(cl[b].cols) \cup Inherited(cl, b) : b \in SeqToSet(cl[i].bases)}

\* abstract: declares the abstract method, or inherits it, without implementing it
RECURSIVE IsAbs(_, _)
IsAbs(cl, i) == IF cl[i].impl THEN FALSE
                ELSE cl[i].absm \/ (\E b \in SeqToSet(cl[i].bases) : b # 0 /\ IsAbs(cl, b))

Offered(cl) == {cl[i].name : i \in {j \in 1..Len(cl) : cl[j].ok /\ ~IsAbs(cl, j)}}

RegistryStep(s, e) ==
  CASE e.op = "define" ->
       LET bad == Refused(s, e)
           d   == [name |-> e.name, bases |-> e.bases, cols |-> e.cols, absm |-> e.absm, impl |-> e.impl, ok |-> ~bad]
           cl  == Append(s.classes, d)
           own == TLCEval([c \in (DOMAIN s.owner) \cup Taken(s, e) |-> IF c \in DOMAIN s.owner THEN s.owner[c] ELSE e.name])
       IN [ s |-> [owner |-> own, classes |-> cl],
            c |-> << <<"unique_column", e.err = IF bad THEN "AttributeError" ELSE "">>,
                     <<"own_columns", bad \/ SeqToSet(e.columns) = SeqToSet(e.cols) \ Inherited(cl, Len(cl))>>,
                     <<"no_double", Len(e.columns) = Cardinality(SeqToSet(e.columns))>>,
                     <<"offered", SeqToSet(e.offered) = Offered(cl)>>,
                     <<"offered_once", Len(e.offered) = Cardinality(SeqToSet(e.offered))>> >> ]
    [] e.op = "access" ->     \* a column (own or inherited) of an instance before any event
       [ s |-> s, c |-> << <<"not_prepared", e.err = "ValueError">> >> ]
    [] e.op = "process" ->    \* keys of the result of processing one event with everything on
       [ s |-> s,
         c |-> << <<"owned_values", e.err = "" /\ SeqToSet(e.keys) =
                       SeqToSet(s.classes[e.cls].cols) \ Inherited(s.classes, e.cls)>> >> ]
    [] OTHER -> [s |-> s, c |-> << <<"TypeOK", FALSE>> >>]
=============================================================================
