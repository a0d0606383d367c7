----------------------------- MODULE Trace_Masks -----------------------------
EXTENDS TraceLib, Masks
=============================================================================
