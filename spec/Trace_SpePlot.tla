--------------------------- MODULE Trace_SpePlot ---------------------------
EXTENDS TraceLib, SpePlot
=============================================================================
