---- MODULE CStrTrace ----
EXTENDS CStrSpec, TraceBase
====
