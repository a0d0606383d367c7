---------------------------- MODULE Trace_WfUtils ----------------------------
EXTENDS TraceLib, WfUtils
=============================================================================
