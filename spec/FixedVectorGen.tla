---- MODULE FixedVectorGen ----
EXTENDS FixedVectorSpec, GenBase
CONSTANT Cap
FGInit == FInit(Cap)
Op(n, a) == [o |-> n, a |-> a]
FGenOps(s) == <<
  { Op("push", <<h, v>>) : h \in 0..1, v \in 1..2 },
  { Op("trypush", <<0, 3>>), Op("tryemplace", <<0, 4>>), Op("pushself", <<0, 0>>) },
  { Op("insert", <<0, i, 5>>) : i \in 0..Cap }, { Op("fill", <<1, Cap, 0>>) },
  { Op("delete", <<0, i>>) : i \in 0..Cap }, { Op("get", <<0, i>>) : i \in {0, Cap} },
  { Op(n, <<0>>) : n \in {"pop", "popfront", "clear", "front", "back", "size"} },
  { Op(n, <<h, 1 - h>>) : n \in {"move", "movector", "moveappend"}, h \in 0..1 },
  { Op("move", <<0, 0>>), Op("moveappend", <<0, 0>>) } >>
====
