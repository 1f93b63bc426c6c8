---- MODULE RangeTrace ----
EXTENDS RangeSpec, TraceBase
====
