------------------------------ MODULE Trace_DL1 ------------------------------
EXTENDS TraceLib, DL1
=============================================================================
