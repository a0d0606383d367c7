----------------------------- MODULE Trace_Pdf -----------------------------
EXTENDS TraceLib, Pdf
=============================================================================
