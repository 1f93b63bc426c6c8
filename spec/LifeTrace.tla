---- MODULE LifeTrace ----
EXTENDS LifeSpec, TraceBase
====
