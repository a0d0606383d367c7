--------------------------- MODULE Trace_RootConv ---------------------------
EXTENDS TraceLib, RootConv
=============================================================================
