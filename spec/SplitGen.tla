---- MODULE SplitGen ----
EXTENDS SplitSpec, GenBase
CONSTANTS MaxT
Op(n, a) == [o |-> n, a |-> a]
PT == UNION { [1..m -> {32, 97, 44}] : m \in 0..MaxT }
PGenOps(s) == <<
  { Op(n, <<T>>) : n \in {"ws", "u8ws", "strip"}, T \in PT },
  { Op("wsv", <<T, b, e, k>>) : T \in PT, b \in {0, 1}, e \in {0, 1, 2, 3}, k \in {-1} },
  { Op("u8cls", <<T, b, Len(T)>>) : T \in PT, b \in {0, 1} },
  { Op("wscb", <<T, k>>) : T \in PT, k \in 1..2 },
  { Op(n, <<T, c>>) : n \in {"by", "rejoin"}, T \in PT, c \in {44, 97} },
  { Op(n, <<T, 44, k>>) : n \in {"bycb", "u8by"}, T \in PT, k \in {1, -1} },
  UNION { { Op("join", <<T, p>>) : p \in { <<>>, <<0>>, <<0, 0>>, <<97, 0, 0>>, <<0, 97, 0, 98, 99, 0>> } } : T \in { <<>>, <<44>>, <<44, 32>> } } >>
PSInv(s) == TRUE
====
