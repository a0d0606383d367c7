---------------------------- MODULE Trace_Matcher ----------------------------
EXTENDS TraceLib, Matcher
=============================================================================
