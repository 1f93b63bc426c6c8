---- MODULE CStrGen ----
EXTENDS CStrSpec, GenBase
Op(n, a) == [o |-> n, a |-> a]
CGenOps(s) == <<
  { Op(n, <<0, v>>) : n \in {"append1", "push", "plusc"}, v \in {0, 32, 200} },
  { Op("rfind", <<0, v>>) : v \in {0, 32, 98} },
  { Op(n, <<0, t>>) : n \in {"appendn", "appendr", "ctorn", "ctorb", "ctorv"}, t \in { <<>>, <<97, 32>>, <<98, 0, 99>> } },
  { Op(n, <<0, t>>) : n \in {"appendz", "plusz", "setz", "eqz"}, t \in { <<>>, <<97, 32>> } },
  { Op("pluss", <<h, g>>) : h \in 0..1, g \in 0..1 },
  { Op("appendself", <<0, 0, 2>>), Op("remove", <<0, 0, 1>>), Op("remove", <<0, 1, 3>>), Op("substr", <<0, 1, -1>>), Op("substr", <<0, 1, 9>>) },
  { Op("insself", <<0, 0, 2, 1>>) }, { Op("plusself", <<0, 1>>), Op("setself", <<0, 1>>) },
  { Op("insert", <<0, i, t>>) : i \in {0, 1, 2, 9}, t \in { <<99, 9>>, <<0>> } },
  { Op(n, <<h>>) : n \in {"pop", "clear", "strip"}, h \in 0..1 }, { Op("resize", <<0, 1>>), Op("resize", <<0, 33>>) },
  { Op("get", <<0, i>>) : i \in {0, 2, -1} }, { Op(n, <<0>>) : n \in {"front", "back", "view", "zview", "upper", "lower"} },
  { Op(n, <<h, 1 - h>>) : n \in {"copy", "copyctor", "move", "movector", "cmp"}, h \in 0..1 },
  { Op("move", <<0, 0>>), Op("copy", <<0, 0>>) } >>
====
