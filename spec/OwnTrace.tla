---- MODULE OwnTrace ----
EXTENDS OwnSpec, TraceBase
====
