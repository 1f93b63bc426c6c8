---- MODULE ExpTrace ----
EXTENDS ExpSpec, TraceBase
====
