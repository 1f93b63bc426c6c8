---- MODULE FixedVectorTrace ----
EXTENDS FixedVectorSpec, TraceBase
====
