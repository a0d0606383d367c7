------------------------------ MODULE TraceLib ------------------------------
(* Batch trace validation.  The file named by the environment variable       *)
(* TRACE_FILE holds a sequence of traces recorded from the implementation:   *)
(*   [ id: Str, cfg: record, ev: Seq(record) ]                               *)
(* Every trace is one behaviour; each step applies the component's own       *)
(* transition function to the logged operation and compares what it allows   *)
(* with the logged observation, clause by clause.  Verdicts are total: each  *)
(* trace ends with "ok" or with the name of the first clause that failed.    *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils

CONSTANTS TInit(_),       \* cfg -> initial state
          TStep(_, _)     \* (state, event) -> [s |-> state', c |-> Seq(<<clause, BOOLEAN>>)]

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, pos, st, verdict

tvars == <<tid, pos, st, verdict>>

Report(t, p, v) == PrintT("VERDICT|" \o ToString(t) \o "|" \o ToString(p) \o "|" \o v)

TrcInit == /\ tid \in 1..Len(Traces)
           /\ pos = 1
           /\ verdict = "ok"
           /\ st = TInit(Traces[tid].cfg)

\* only the clauses named by the property under check count
Owned == LET w == JsonDeserialize(IOEnv.CLAUSE_FILE) IN {w[i] : i \in 1..Len(w)}

TrcNext == /\ verdict = "ok"
           /\ pos <= Len(Traces[tid].ev)
           \* (a bound variable is evaluated once; a LET definition each time it is used)
           /\ \E e \in {Traces[tid].ev[pos]} :
              \* the driver reports crashes, hangs and unexpected exceptions as "abort"
              \E r \in {IF e.op = "abort" THEN [s |-> st, c |-> <<>>] ELSE TStep(st, e)} :
              \E bad \in {SelectSeq(r.c, LAMBDA x : (x[1] \in Owned) /\ ~x[2])} :
              \E v \in {IF e.op = "abort" THEN "Aborted" ELSE IF bad = <<>> THEN "ok" ELSE bad[1][1]} :
                 /\ st' = r.s
                 /\ verdict' = v
                 /\ IF v # "ok" \/ pos = Len(Traces[tid].ev) THEN Report(tid, pos, v) ELSE TRUE
           /\ pos' = pos + 1
           /\ UNCHANGED tid

TrcSpec == TrcInit /\ [][TrcNext]_tvars
=============================================================================
