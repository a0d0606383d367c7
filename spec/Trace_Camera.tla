---------------------------- MODULE Trace_Camera ----------------------------
EXTENDS TraceLib, Camera
=============================================================================
