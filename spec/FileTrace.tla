---- MODULE FileTrace ----
EXTENDS FileSpec, TraceBase
====
