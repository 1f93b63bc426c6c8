---- MODULE FixedCStrTrace ----
EXTENDS FixedCStrSpec, TraceBase
====
