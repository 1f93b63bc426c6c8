---- MODULE MapGen ----
EXTENDS MapSpec, GenBase
CONSTANT NKeys
Op(n, a) == [o |-> n, a |-> a]
K == 0..(NKeys - 1)
MGenOps(s) == <<
  { Op("ins", <<0, k, 1 + Cardinality(DOMAIN s[1])>>) : k \in K }, { Op("rem", <<0, k>>) : k \in K },
  { Op("idx", <<0, k>>) : k \in {0} }, { Op("at", <<0, k>>) : k \in {0} }, { Op("look", <<0, 1>>) }, { Op("clear", <<0>>) },
  { Op("insown", <<0, 0, 9>>) },
  { Op("move", <<1, 0>>), Op("movector", <<1, 0>>), Op("move", <<0, 1>>), Op("move", <<0, 0>>) } >>
====
