---- MODULE EpochTrace ----
EXTENDS EpochSpec, TraceBase
====
