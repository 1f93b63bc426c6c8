---- MODULE GlobTrace ----
EXTENDS GlobSpec, TraceBase
====
