-------------------------- MODULE Trace_Lifecycle --------------------------
EXTENDS TraceLib, Lifecycle
=============================================================================
