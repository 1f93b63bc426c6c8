---- MODULE UStrGen ----
EXTENDS UStrSpec, GenBase
Op(n, a) == [o |-> n, a |-> a]
UGenOps(s) == <<
  { Op(n, <<0, t>>) : n \in {"ctorn", "ctorb", "ctorv", "setv"}, t \in { <<>>, <<97>>, <<195, 164, 98>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<192, 128>>, <<237, 160, 128>>, <<97, 0>>, <<226, 130>> } },
  { Op(n, <<0, t>>) : n \in {"ctorz", "ctorvz"}, t \in { <<>>, <<195, 164, 98>> } },
  { Op("pluss", <<h, g>>) : h \in 0..1, g \in 0..1 },
  { Op("cp", <<h, c>>) : h \in 0..1, c \in {0, 65, 233, 8364, 55296, 128512, 1114112} },
  { Op("ins", <<0, k, t>>) : k \in 0..2, t \in { <<98>>, <<195, 164>>, <<128>> } },
  { Op("insself", <<0, 1, 0, 2>>), Op("insself", <<0, 0, 1, 1>>) },
  { Op(n, <<0, i, j>>) : n \in {"rem", "setself", "cut"}, i \in 0..2, j \in 0..1 },
  { Op(n, <<h>>) : n \in {"popf", "popb", "remother"}, h \in 0..1 },
  { Op("substr", <<0, i, k>>) : i \in {0, 1, 2, -1}, k \in {1, 2, -1} },
  { Op(n, <<h, 1 - h>>) : n \in {"copy", "copyctor", "move", "movector"}, h \in 0..1 }, { Op("cmp", <<0>>) },
  { Op("move", <<0, 0>>), Op("copy", <<0, 0>>) }, { Op("walk", <<0, <<1, 1, 2, 3, 2, 2>>>>) }, { Op("eqz", <<0, <<195, 164, 98>>>>) },
  { Op("has", <<0, 0, 1, 1, 1>>) } >>
====
