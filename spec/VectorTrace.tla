---- MODULE VectorTrace ----
EXTENDS VectorSpec, TraceBase
====
