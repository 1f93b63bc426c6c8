---- MODULE OptTrace ----
EXTENDS OptSpec, TraceBase
====
