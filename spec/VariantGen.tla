---- MODULE VariantGen ----
EXTENDS VariantSpec, GenBase
Op(n, a) == [o |-> n, a |-> a]
CONSTANT World
GAlts == CASE World = 0 -> {0, 1, 3} [] World = 2 -> {0} [] World = 3 -> {1, 6} [] OTHER -> {0, 1}
GVals == IF World = 0 THEN {4, 13} ELSE {4}
VGStart == VInit(CASE World = 0 -> 5 [] World = 2 -> 1 [] World = 3 -> 7 [] OTHER -> 3, World)
VGenOps(t) == <<
  { Op("insert", <<0, k, v, 0>>) : k \in GAlts, v \in GVals },
  { Op("set", <<1, k, v, f>>) : k \in GAlts, v \in GVals, f \in 0..1 },
  { Op("ctor", <<0, k, 5, f>>) : k \in GAlts, f \in 0..2 },
  { Op(n, <<0, 1>>) : n \in {"copyctor", "copy", "movector", "move", "swap", "setmoved", "eq"} },
  { Op(n, <<1, 0>>) : n \in {"copy", "move"} },
  { Op(n, <<1, 1>>) : n \in {"copy", "move", "eq"} },
  { Op("insertself", <<1>>) },
  { Op(n, <<0, k>>) : n \in {"getif", "contains"}, k \in GAlts },
  { Op("get", <<1, k, f>>) : k \in GAlts, f \in 0..1 },
  { Op("mutate", <<0, k, 9>>) : k \in GAlts } >>
VGInv(t) == \A h \in 1..3 : t.s[h][1] \in 0..(t.n - 1)
====
