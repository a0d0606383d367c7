----------------------------- MODULE Trace_Chain -----------------------------
EXTENDS TraceLib, Chain
=============================================================================
