--------------------------- MODULE Trace_Registry ---------------------------
EXTENDS TraceLib, Registry
=============================================================================
