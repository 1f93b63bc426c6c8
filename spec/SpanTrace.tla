---- MODULE SpanTrace ----
EXTENDS SpanSpec, TraceBase
====
