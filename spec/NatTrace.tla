---- MODULE NatTrace ----
EXTENDS NatSpec, TraceBase
====
