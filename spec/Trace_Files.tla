---------------------------- MODULE Trace_Files ----------------------------
EXTENDS TraceLib, Files
=============================================================================
