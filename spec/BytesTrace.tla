---- MODULE BytesTrace ----
EXTENDS BytesSpec, TraceBase
====
