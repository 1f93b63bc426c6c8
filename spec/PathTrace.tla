---- MODULE PathTrace ----
EXTENDS PathSpec, TraceBase
====
