--------------------------- MODULE Trace_Counting ---------------------------
EXTENDS TraceLib, Counting
=============================================================================
