------------------------------ MODULE AlgoGen -------------------------------
(* All small inputs of the algorithms.                                      *)
EXTENDS AlgoSpec, Json
CONSTANTS MaxLen, NKeys, What
VARIABLE n
V(f) == [i \in DOMAIN f |-> f[i] * W + i - 1]
Seqs(m) == [1..m -> 0..(NKeys - 1)]
Op(o, a) == <<o, a>>
IsS(f) == \A i \in 1..(Len(f) - 1) : f[i] <= f[i + 1]
\* Unmodified subranges at the front and at the back.
Subs(m) == { <<lo, hi>> \in (0..m) \X (0..m) : lo <= hi /\ lo <= 1 /\ hi >= m - 1 }
Emit(op) == PrintT("GEN" \o ToJson(<<op>>))
Ops(f) ==
  LET m == Len(f) v == V(f) IN
  IF What = 1 THEN { Op("sort", <<al, 0, (al + m) % 2, c, p[1], p[2], v>>) : al \in 0..4, c \in {2, 3}, p \in Subs(m) }
  ELSE IF What = 2 THEN
    { Op("stablepart", <<fo, fo, p, q[1], q[2], v>>) : fo \in {0, 1}, p \in {0, 1, 2, 1000}, q \in Subs(m) }
    \cup { Op("indirect", <<1, 1, c, v>>) : c \in {2, 3} }
  ELSE
    { Op("partition", <<fo, fo, p, q[1], q[2], v>>) : fo \in {0, 1}, p \in {0, 1, 2, 1000}, q \in Subs(m) }
    \cup { Op("rotate", <<fo, 1 - fo, q[1], mid, q[2], v>>) : fo \in {0, 1}, mid \in 0..m, q \in { s \in Subs(m) : TRUE } }
    \cup { Op(o, <<1, q[1], q[2], v>>) : o \in {"rotlast", "rotfirst"}, q \in Subs(m) }
    \cup { Op(o, <<fo, 1, c, q[1], q[2], k, v>>) : o \in {"nth"}, fo \in {0, 1}, c \in {0, 2}, k \in 0..m, q \in Subs(m) }
    \cup { Op("psort", <<0, 1, c, q[1], q[2], k, v>>) : c \in {0, 3}, k \in 0..m, q \in Subs(m) }
    \cup { Op(o, <<1, c, q[1], q[2], v>>) : o \in {"min", "max", "issorted"}, c \in {2, 3, 5}, q \in Subs(m) }
    \cup { Op("find", <<0, q[1], q[2], k, v>>) : k \in {0, W + 1, 2 * W + 2}, q \in Subs(m) }
    \cup { Op("findif", <<1, nt, p, q[1], q[2], v>>) : nt \in {0, 1}, p \in {1, 1000}, q \in Subs(m) }
    \cup (IF IsS(f) THEN { Op("lower", <<t, c, q[1], q[2], k * W, v>>) : t \in {0, 1}, c \in {0, 2}, k \in 0..3, q \in Subs(m) } ELSE {})
Good(op) == op[1] # "rotate" \/ (op[2][3] <= op[2][4] /\ op[2][4] <= op[2][5])
Init == n = 0
Next == /\ n <= MaxLen
        /\ \A f \in Seqs(n) : \A op \in Ops(f) : Good(op) => Emit(op)
        /\ n' = n + 1
Spec == Init /\ [][Next]_n
=============================================================================
