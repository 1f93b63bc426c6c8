---- MODULE ArgTrace ----
EXTENDS ArgSpec, TraceBase
====
