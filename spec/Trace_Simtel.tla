---------------------------- MODULE Trace_Simtel ----------------------------
EXTENDS TraceLib, Simtel
=============================================================================
