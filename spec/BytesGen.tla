---- MODULE BytesGen ----
EXTENDS BytesSpec, GenBase
Op(n, a) == [o |-> n, a |-> a]
BGenOps(s) == <<
  { Op("push", <<h, v>>) : h \in 0..1, v \in {0, 200} },
  { Op("append", <<0, t>>) : t \in { <<>>, <<1, 2>> } }, { Op("append", <<1, <<255, 0, 97>> >>) },
  { Op("appendself", <<0, i, j>>) : i \in 0..1, j \in 1..2 }, { Op("assignself", <<0, 1, 2>>), Op("pluseq", <<0, 0>>), Op("pluseq", <<0, 1>>) },
  { Op("assign", <<0, <<9>> >>), Op("ctor", <<1, <<3, 4>> >>) }, { Op("ctorfill", <<0, 3, 7>>), Op("fill", <<0, 15, 3>>) },
  { Op("insert", <<0, i, <<5, 6>> >>) : i \in {0, 1, 9} },
  { Op("remove", <<0, i, j>>) : i \in 0..2, j \in 0..3 },
  { Op(n, <<0, k>>) : n \in {"popback", "popfront", "shrink"}, k \in {0, 1, 5} },
  { Op("extend", <<0, 2>>), Op("resize", <<0, 1>>), Op("resize", <<0, 17>>), Op("reserve", <<0, 40>>), Op("get", <<0, 1>>), Op("get", <<0, -1>>) },
  { Op(n, <<0>>) : n \in {"clear", "front", "back", "span", "iter"} },
  { Op(n, <<h, 1 - h>>) : n \in {"copy", "copyctor", "move", "movector", "cmp"}, h \in 0..1 },
  { Op("move", <<0, 0>>), Op("copy", <<0, 0>>) } >>
====
