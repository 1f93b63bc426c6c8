---- MODULE ThreadTrace ----
EXTENDS ThreadSpec, TraceBase
====
