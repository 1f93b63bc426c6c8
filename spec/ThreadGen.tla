---- MODULE ThreadGen ----
(* Schedules: which thread makes its next call.  At most one thread waits   *)
(* for a mutex, and mutex 2 is never held while waiting for mutex 1.        *)
EXTENDS ThreadSpec, GenBase
CONSTANTS Workers
Op(n, a) == [o |-> n, a |-> a]
TgInit == [own |-> <<0, 0>>, wait |-> <<0, 0>>, g |-> [t \in Workers |-> <<>>]]
\* g[t]: what t holds, innermost last: <<mutex, 1 plain or 4 guard>>
Waiting(s, t) == s.wait[1] = t \/ s.wait[2] = t
HoldsM(s, t, m) == \E i \in DOMAIN s.g[t] : s.g[t][i][1] = m
Mine(s, t, m, k) == [s EXCEPT !.own[m] = t, !.g[t] = Append(@, <<m, k>>)]
TgGenOps(s) ==
  LET Free == { t \in Workers : ~Waiting(s, t) }
      Can(t, m) == ~HoldsM(s, t, m) /\ (s.own[m] = 0 \/ (s.wait[m] = 0 /\ ~(m = 1 /\ HoldsM(s, t, 2))))
  IN << { Op("do", <<t, k, m>>) : t \in { x \in Free : Can(x, 1) }, k \in {1, 4}, m \in {1} },
        { Op("do", <<t, k, m>>) : t \in { x \in Free : Can(x, 2) }, k \in {1, 4}, m \in {2} },
        { Op("do", <<t, 3, 1>>) : t \in { x \in Free : ~HoldsM(s, x, 1) } },
        { Op("do", <<t, 3, 2>>) : t \in { x \in Free : ~HoldsM(s, x, 2) } },
        UNION { { Op("do", <<t, IF s.g[t][Len(s.g[t])][2] = 4 THEN k ELSE 2, s.g[t][Len(s.g[t])][1]>>) : k \in {5, 6} } : t \in { x \in Free : s.g[x] # <<>> } } >>
\* How acquisitions are held: by a plain lock (1) or a guard (4); the one who waits remembers which.
TgOutcomes(s, o, a) ==
  LET t == a[1] k == a[2] m == a[3]
      Drop(x) == [x EXCEPT !.g[t] = SubSeq(@, 1, Len(@) - 1)]
  IN IF k \in {1, 4}
     THEN (IF s.own[m] = 0 THEN { [st |-> Mine(s, t, m, k), x |-> 0, r |-> <<>>] }
           ELSE { [st |-> [s EXCEPT !.wait[m] = t, !.g[t] = Append(@, <<m, k>>)], x |-> 0, r |-> <<>>] })
     ELSE IF k = 3 THEN (IF s.own[m] = 0 THEN { [st |-> Mine(s, t, m, 1), x |-> 0, r |-> <<>>] } ELSE { [st |-> s, x |-> 0, r |-> <<>>] })
     ELSE { [st |-> Drop([s EXCEPT !.own[m] = s.wait[m], !.wait[m] = 0]), x |-> 0, r |-> <<>>] }
TgInv(s) == \A m \in 1..2 : s.wait[m] # 0 => s.own[m] # 0 /\ s.own[m] # s.wait[m]
====
