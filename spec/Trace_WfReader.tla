---------------------------- MODULE Trace_WfReader ----------------------------
EXTENDS TraceLib, WfReader
=============================================================================
