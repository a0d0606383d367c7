---------------------------- MODULE Trace_Stats ----------------------------
EXTENDS TraceLib, Stats
=============================================================================
