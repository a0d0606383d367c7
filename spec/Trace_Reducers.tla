--------------------------- MODULE Trace_Reducers ---------------------------
EXTENDS TraceLib, Reducers
=============================================================================
