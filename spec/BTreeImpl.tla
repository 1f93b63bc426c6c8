----------------------------- MODULE BTreeImpl ------------------------------
(* The algorithm of include/pystd2026_btree.hpp on tree shapes: a node is   *)
(* [v |-> sorted values, c |-> children (<<>> for a leaf)].  Insertion      *)
(* splits full nodes on the way down; removal borrows from or merges with a *)
(* sibling on the way down so that the node a value is taken from is never  *)
(* at the minimum size.                                                     *)
(* Checked: every reachable shape is a proper B-tree and holds exactly the  *)
(* elements of the abstract set `s` (refinement).  Every transition between *)
(* shapes is printed; the check walks the real trees over all of them.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,     \* keys 1..N
          E      \* entries per node (odd)
Min == E \div 2

VARIABLES tree, s

Leaf(v) == [v |-> v, c |-> <<>>]
IsLeaf(n) == n.c = <<>>
InsAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
DelAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* First position whose value is not less than k (1-based; Len + 1 if none).
Lower(v, k) == 1 + Cardinality({ i \in DOMAIN v : v[i] < k })
Found(n, k) == \E i \in DOMAIN n.v : n.v[i] = k

-----------------------------------------------------------------------------
(* Insertion *)
SplitL(n) == [v |-> SubSeq(n.v, 1, Min), c |-> IF IsLeaf(n) THEN <<>> ELSE SubSeq(n.c, 1, Min + 1)]
SplitM(n) == n.v[Min + 1]
SplitR(n) == [v |-> SubSeq(n.v, Min + 2, E), c |-> IF IsLeaf(n) THEN <<>> ELSE SubSeq(n.c, Min + 2, E + 1)]
Full(n) == Len(n.v) = E
RECURSIVE Desc(_, _)
Desc(n, k) ==
  LET i == Lower(n.v, k)
  IN IF Found(n, k) THEN n
     ELSE IF IsLeaf(n) THEN Leaf(InsAt(n.v, i, k))
     ELSE LET ch == n.c[i]
          IN IF Full(ch)
             THEN Desc([v |-> InsAt(n.v, i, SplitM(ch)),
                        c |-> InsAt([n.c EXCEPT ![i] = SplitL(ch)], i + 1, SplitR(ch))], k)
             ELSE [n EXCEPT !.c[i] = Desc(ch, k)]
Insert(t, k) ==
  IF Full(t) THEN Desc([v |-> <<SplitM(t)>>, c |-> <<SplitL(t), SplitR(t)>>], k) ELSE Desc(t, k)

-----------------------------------------------------------------------------
(* Removal *)
Merge(n, i) ==   \* children i and i + 1 with the value between them
  [v |-> DelAt(n.v, i),
   c |-> DelAt([n.c EXCEPT ![i] = [v |-> n.c[i].v \o <<n.v[i]>> \o n.c[i + 1].v, c |-> n.c[i].c \o n.c[i + 1].c]], i + 1)]
ShiftR(n, i) ==  \* from child i to child i + 1
  LET l == n.c[i]
      r == n.c[i + 1]
  IN [v |-> [n.v EXCEPT ![i] = l.v[Len(l.v)]],
      c |-> [n.c EXCEPT ![i] = [v |-> SubSeq(l.v, 1, Len(l.v) - 1), c |-> IF IsLeaf(l) THEN <<>> ELSE SubSeq(l.c, 1, Len(l.c) - 1)],
                        ![i + 1] = [v |-> <<n.v[i]>> \o r.v, c |-> IF IsLeaf(r) THEN <<>> ELSE <<l.c[Len(l.c)]>> \o r.c]]]
ShiftL(n, i) ==  \* from child i + 1 to child i
  LET l == n.c[i]
      r == n.c[i + 1]
  IN [v |-> [n.v EXCEPT ![i] = r.v[1]],
      c |-> [n.c EXCEPT ![i] = [v |-> Append(l.v, n.v[i]), c |-> IF IsLeaf(l) THEN <<>> ELSE Append(l.c, r.c[1])],
                        ![i + 1] = [v |-> Tail(r.v), c |-> IF IsLeaf(r) THEN <<>> ELSE Tail(r.c)]]]
Low(n) == Len(n.v) <= Min
\* Make child i able to lose a value: <<node, index to continue at>>
Prepare(n, i) ==
  IF ~Low(n.c[i]) THEN <<n, i>>
  ELSE IF i > 1 /\ ~Low(n.c[i - 1]) THEN <<ShiftR(n, i - 1), i>>
  ELSE IF i < Len(n.c) /\ ~Low(n.c[i + 1]) THEN <<ShiftL(n, i), i>>
  ELSE IF i = Len(n.c) THEN <<Merge(n, i - 1), i - 1>>
  ELSE <<Merge(n, i), i>>
RECURSIVE TakeMax(_), TakeMin(_), Ext(_, _)
TakeMax(n) ==   \* <<value, rest>>
  IF IsLeaf(n) THEN <<n.v[Len(n.v)], Leaf(SubSeq(n.v, 1, Len(n.v) - 1))>>
  ELSE LET p == Prepare(n, Len(n.c))
           r == TakeMax(p[1].c[p[2]])
       IN <<r[1], [p[1] EXCEPT !.c[p[2]] = r[2]]>>
TakeMin(n) ==
  IF IsLeaf(n) THEN <<n.v[1], Leaf(Tail(n.v))>>
  ELSE LET p == Prepare(n, 1)
           r == TakeMin(p[1].c[p[2]])
       IN <<r[1], [p[1] EXCEPT !.c[p[2]] = r[2]]>>
Ext(n, k) ==
  LET i == Lower(n.v, k)
  IN IF IsLeaf(n) THEN (IF Found(n, k) THEN Leaf(DelAt(n.v, i)) ELSE n)
     ELSE IF Found(n, k)
     THEN IF ~Low(n.c[i]) THEN LET r == TakeMax(n.c[i]) IN [v |-> [n.v EXCEPT ![i] = r[1]], c |-> [n.c EXCEPT ![i] = r[2]]]
          ELSE IF ~Low(n.c[i + 1]) THEN LET r == TakeMin(n.c[i + 1]) IN [v |-> [n.v EXCEPT ![i] = r[1]], c |-> [n.c EXCEPT ![i + 1] = r[2]]]
          ELSE LET m == Merge(n, i) IN [m EXCEPT !.c[i] = Ext(m.c[i], k)]
     ELSE LET p == Prepare(n, i) IN [p[1] EXCEPT !.c[p[2]] = Ext(p[1].c[p[2]], k)]
Remove(t, k) == LET r == Ext(t, k) IN IF r.v = <<>> /\ ~IsLeaf(r) THEN r.c[1] ELSE r

-----------------------------------------------------------------------------
Init == tree = Leaf(<<>>) /\ s = {}
Edge(o, k) == PrintT("EDG" \o ToJson(<<tree, <<o, <<0, k>>>>, tree'>>))
Next == \E k \in 1..N :
          \/ /\ tree' = Insert(tree, k) /\ s' = s \cup {k} /\ Edge("sins", k)
          \/ /\ tree' = (IF s = {} THEN tree ELSE Remove(tree, k)) /\ s' = s \ {k} /\ Edge("rem", k)
Spec == Init /\ [][Next]_<<tree, s>>

RECURSIVE Elems(_), Depths(_), Sizes(_), InOrder(_)
Elems(n) == { n.v[i] : i \in DOMAIN n.v } \cup UNION { Elems(n.c[i]) : i \in DOMAIN n.c }
Depths(n) == IF IsLeaf(n) THEN {0} ELSE { d + 1 : d \in UNION { Depths(n.c[i]) : i \in DOMAIN n.c } }
Sizes(n) == { Len(n.v) } \cup UNION { Sizes(n.c[i]) : i \in DOMAIN n.c }
RECURSIVE Cat(_, _)
Cat(n, i) == IF i > Len(n.c) THEN <<>>
             ELSE InOrder(n.c[i]) \o (IF i <= Len(n.v) THEN <<n.v[i]>> ELSE <<>>) \o Cat(n, i + 1)
InOrder(n) == IF IsLeaf(n) THEN n.v ELSE Cat(n, 1)
Refines == Elems(tree) = s
Ordered == LET q == InOrder(tree) IN Len(q) = Cardinality(s) /\ \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
Balanced == Cardinality(Depths(tree)) = 1
Filled == \A i \in DOMAIN tree.c : \A z \in Sizes(tree.c[i]) : Min <= z /\ z <= E
Linked == LET RECURSIVE Ln(_)
              Ln(n) == (IsLeaf(n) \/ Len(n.c) = Len(n.v) + 1) /\ \A i \in DOMAIN n.c : Ln(n.c[i])
          IN Ln(tree)
=============================================================================
