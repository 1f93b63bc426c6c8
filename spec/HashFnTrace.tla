---- MODULE HashFnTrace ----
EXTENDS HashFnSpec, TraceBase
====
