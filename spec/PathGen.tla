---- MODULE PathGen ----
(* What = 1: lexical operations on every text; What = 2: histories of the directory. *)
EXTENDS PathSpec, GenBase
CONSTANTS MaxT, What
Op(n, a) == [o |-> n, a |-> a]
Texts(n) == UNION { [1..k -> {Slash, Dot, 97}] : k \in 0..n }
PGenOps(s) ==
  IF What = 1
  THEN << { Op(n, <<t>>) : n \in {"ext", "name", "split"}, t \in Texts(MaxT) },
          { Op("text", <<t, v>>) : t \in Texts(MaxT), v \in 0..1 },
          { Op("repl", <<t, e, 0>>) : t \in Texts(MaxT), e \in { <<>>, <<Dot, 98>>, <<98>> } },
          { Op("join", <<t, u, 0>>) : t \in Texts(3), u \in Texts(3) },
          { Op("join", <<t, u, v>>) : t \in Texts(2), u \in Texts(2), v \in 1..2 } >>
  ELSE << { Op("mk", <<i, k, <<7>> >>) : i \in { j \in 1..3 : s[j].k = 0 }, k \in {1, 2, 3, 4, 6, 7} },
          { Op("query", <<i, v>>) : i \in {1, 3}, v \in 0..1 },
          { Op("rename", <<i, j>>) : i \in 1..3, j \in 1..3 },
          { Op("load", <<i, 0>>) : i \in {2} } >>
PGInv(s) == \A i \in 1..4 : s[i].k \in 0..7
====
