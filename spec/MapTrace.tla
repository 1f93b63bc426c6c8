---- MODULE MapTrace ----
EXTENDS MapSpec, TraceBase
====
