---------------------------- MODULE Trace_Mapping ----------------------------
EXTENDS TraceLib, Mapping
=============================================================================
