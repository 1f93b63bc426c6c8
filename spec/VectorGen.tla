---- MODULE VectorGen ----
EXTENDS VectorSpec, GenBase
\* ---- generation: small domains --------------------------------------------
CONSTANTS GVals
Op(n, a) == [o |-> n, a |-> a]
VGenOps(s) ==
  LET H == 0..1 IN <<
    { Op("push", <<h, v>>) : h \in H, v \in GVals },
    { Op(n, <<0, i>>) : n \in {"pushself", "emplself", "pushmself"}, i \in {j \in 0..1 : j < Len(s[1])} },
    { Op("pop", <<h>>) : h \in H } \cup { Op(n, <<0>>) : n \in {"clear", "front", "back"} },
    { Op("reserve", <<0, 20>>), Op("eq", <<0, 1>>), Op("appdef", <<0, 2>>), Op("popn", <<0, 2>>) },
    { Op("append", <<0, <<1, 2>> >>), Op("assign", <<0, <<2>> >>), Op("ctor", <<1, <<1, 2>> >>) },
    { Op("appendv", <<0, 1>>), Op("appendv", <<0, 0>>), Op("assignv", <<0, 0>>), Op("assignv", <<1, 0>>) },
    { Op("appendsub", <<0, 1, 1, 2>>) }, { Op("fill", <<0, 15, 1>>) },
    { Op(n, <<h, 1 - h>>) : n \in {"copy", "move", "movector"}, h \in H },
    { Op("move", <<0, 0>>), Op("copy", <<0, 0>>) },
    { Op(n, <<0, i>>) : n \in {"get", "at"}, i \in 0..2 }, { Op(n, <<0>>) : n \in {"iter", "span"} }, { Op("set", <<0, 1, 2>>) } >>
VInv(s) == \A h \in 1..2 : \A i \in 1..Len(s[h]) : s[h][i] \in 0..99
====
