---- MODULE ExpGen ----
EXTENDS ExpSpec, GenBase
Op(n, a) == [o |-> n, a |-> a]
EGenOps(s) == <<
  { Op(n, <<0, 4, f>>) : n \in {"val", "err"}, f \in 0..1 },
  { Op(n, <<1, 5, 0>>) : n \in {"setval", "seterr"} }, { Op("unexp", <<1, 5, f>>) : f \in {0, 2, 3} },
  { Op(n, <<h, 1 - h>>) : n \in {"movector", "move"}, h \in 0..1 },
  { Op("move", <<0, 0>>), Op("dctor", <<0>>), Op("bool", <<0>>), Op("mutate", <<0, 8>>) },
  { Op(n, <<h>>) : n \in {"value", "error"}, h \in 0..1 } >>
EGInv(s) == \A h \in 1..3 : s[h][1] \in 0..2
====
