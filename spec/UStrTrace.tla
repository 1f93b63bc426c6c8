---- MODULE UStrTrace ----
EXTENDS UStrSpec, TraceBase
====
