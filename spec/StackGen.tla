---- MODULE StackGen ----
EXTENDS StackSpec, GenBase
Op(n, a) == [o |-> n, a |-> a]
SGenOps(s) == <<
  { Op("push", <<h, v>>) : h \in 0..1, v \in 1..2 },
  { Op(n, <<h>>) : n \in {"pop", "clear", "top", "pushself"}, h \in 0..1 },
  { Op(n, <<h, 1 - h>>) : n \in {"move", "movector"}, h \in 0..1 },
  { Op("move", <<0, 0>>), Op("set", <<0, 3>>) } >>
SGInv(s) == \A h \in 1..2 : \A i \in 1..Len(s[h]) : s[h][i] \in 1..3
====
