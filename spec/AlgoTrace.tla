---- MODULE AlgoTrace ----
EXTENDS AlgoSpec, TraceBase
====
