---- MODULE VariantTrace ----
EXTENDS VariantSpec, TraceBase
====
