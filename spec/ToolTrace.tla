---- MODULE ToolTrace ----
EXTENDS ToolSpec, TraceBase
====
