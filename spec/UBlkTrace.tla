---- MODULE UBlkTrace ----
EXTENDS UBlkSpec, TraceBase
====
