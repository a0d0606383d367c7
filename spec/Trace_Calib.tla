---------------------------- MODULE Trace_Calib ----------------------------
EXTENDS TraceLib, Calib
=============================================================================
