---------------------------- MODULE Trace_WfPlot ----------------------------
EXTENDS TraceLib, WfPlot
=============================================================================
