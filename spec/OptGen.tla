---- MODULE OptGen ----
EXTENDS OptSpec, GenBase
Op(n, a) == [o |-> n, a |-> a]
CONSTANT World
OGStart == OInit(World)
OGenOps(t) == <<
  { Op("ctor", <<0, v, f>>) : v \in {4}, f \in 0..1 },
  { Op("assign", <<h, v, f>>) : h \in 0..1, v \in {5, 6}, f \in 0..1 },
  { Op(n, <<h, 1 - h>>) : n \in {"copyctor", "copy", "movector", "move"}, h \in 0..1 },
  { Op(n, <<0, 1>>) : n \in {"swap", "assignother"} },
  { Op(n, <<0, 0>>) : n \in {"copy", "move"} },
  { Op("assignown", <<0, f>>) : f \in IF World = 4 THEN {} ELSE 0..1 },
  { Op(n, <<0>>) : n \in {"reset", "dctor", "bool"} },
  { Op("get", <<h, f>>) : h \in 0..1, f \in 0..5 },
  { Op("mutate", <<0, 9>>) } >>
OGInv(t) == \A h \in 1..3 : Len(t.s[h]) <= 1
====
