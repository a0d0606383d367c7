---------------------------- MODULE Trace_Spectrum ----------------------------
EXTENDS TraceLib, Spectrum
=============================================================================
