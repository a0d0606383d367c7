----------------------------- MODULE Trace_SiPM -----------------------------
EXTENDS TraceLib, SiPM
=============================================================================
