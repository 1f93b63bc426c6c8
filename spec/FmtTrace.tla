---- MODULE FmtTrace ----
EXTENDS FmtSpec, TraceBase
====
