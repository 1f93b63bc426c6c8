---- MODULE SplitTrace ----
EXTENDS SplitSpec, TraceBase
====
