--------------------------- MODULE Trace_ResPlot ---------------------------
EXTENDS TraceLib, ResPlot
=============================================================================
