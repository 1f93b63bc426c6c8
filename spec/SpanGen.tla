---- MODULE SpanGen ----
EXTENDS SpanSpec, GenBase
CONSTANT MaxT
Op(n, a) == [o |-> n, a |-> a]
Spans == { <<[i \in 1..n |-> 10 + i], b, e>> : n \in 0..MaxT, b \in 0..MaxT, e \in 0..MaxT }
Good == { t \in Spans : t[2] <= t[3] /\ t[3] <= Len(t[1]) }
Ix == (0..(MaxT + 1)) \cup {-1, -2, -1000}
PGenOps(s) == <<
  { Op(n, t) : n \in {"all", "size", "assign"}, t \in Good },
  { Op("idx", t \o <<i, f>>) : t \in Good, i \in Ix, f \in 0..2 },
  { Op("set", t \o <<i, 99>>) : t \in Good, i \in Ix },
  { Op("sub1", t \o <<i>>) : t \in Good, i \in Ix },
  { Op("sub", t \o <<i, k>>) : t \in Good, i \in Ix, k \in Ix \cup {-3} },
  { Op("empty", <<>>) } >>
PGInv(s) == TRUE
====
