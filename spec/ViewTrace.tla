---- MODULE ViewTrace ----
EXTENDS ViewSpec, TraceBase
====
