---------------------------- MODULE Trace_Store ----------------------------
EXTENDS TraceLib, Store
=============================================================================
