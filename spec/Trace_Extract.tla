---------------------------- MODULE Trace_Extract ----------------------------
EXTENDS TraceLib, Extract
=============================================================================
