---- MODULE StackTrace ----
EXTENDS StackSpec, TraceBase
====
