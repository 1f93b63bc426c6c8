---- MODULE FixedCStrGen ----
EXTENDS FixedCStrSpec, GenBase
CONSTANT Cap
XGInit == XInit(Cap)
Op(n, a) == [o |-> n, a |-> a]
Text(k) == [i \in 1..k |-> 96 + i]
XGenOps(s) == <<
  { Op(n, <<h, Text(k)>>) : n \in {"ctorz", "ctorn", "setv"}, h \in {0, 2}, k \in {0, 1, Cap, Cap + 1} },
  { Op("ctorn", <<1, <<200>> >>) },
  { Op("setself", <<0, i, j>>) : i \in 0..1, j \in 0..2 },
  { Op("pop", <<h>>) : h \in {0, 2} },
  { Op(n, <<h, 1 - h>>) : n \in {"copy", "copyctor", "move", "movector"}, h \in 0..1 },
  { Op("move", <<0, 0>>), Op("copy", <<0, 0>>), Op("cross", <<0, 2>>), Op("cross", <<2, 0>>) },
  { Op("get", <<0, i>>) : i \in {0, Cap + 1} }, { Op("eqz", <<0, Text(k)>>) : k \in {1, Cap} }, { Op("eqv", <<0, Text(k)>>) : k \in {1, Cap} } >>
====
