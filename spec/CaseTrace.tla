---- MODULE CaseTrace ----
EXTENDS CaseSpec, TraceBase
====
