---- MODULE RegexTrace ----
EXTENDS RegexSpec, TraceBase
====
