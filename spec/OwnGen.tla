---- MODULE OwnGen ----
EXTENDS OwnSpec, GenBase
Op(n, a) == [o |-> n, a |-> a]
CONSTANT World
WGStart == WInit(World)
Fresh(t) == t.dead + Len(t.raw) + Len(t.s[1]) + Len(t.s[2]) + Len(t.s[3]) + 1
WGenOps(t) ==
  << { Op(n, <<h, 1 - h>>) : n \in {"movector", "move"}, h \in 0..1 },
     { Op("swap", <<0, 1>>), Op("move", <<0, 0>>) },
     { Op("drop", <<h>>) : h \in 0..1 } >> \o
  IF World < 2
  THEN << { Op(n, <<h, Fresh(t)>>) : n \in {"new", "reset"}, h \in 0..1 },
          { Op(n, <<0>>) : n \in {"resetnull", "release", "adopt", "get"} },
          { Op("adopt", <<1>>) } >>
  ELSE << { Op("newarr", <<h, n, f>>) : h \in 0..1, n \in {0, 2}, f \in 0..1 },
          { Op("idx", <<0, i, f>>) : i \in {0, 1, 2, -1}, f \in 0..1 },
          { Op("set", <<0, i, 7>>) : i \in {1, 2} },
          { Op("size", <<0>>) } >>
\* Nothing is owned twice.
WGInv(t) == World < 2 =>
   LET all == t.s[1] \o t.s[2] \o t.s[3] \o t.raw IN Cardinality({ all[i] : i \in 1..Len(all) }) = Len(all)
====
