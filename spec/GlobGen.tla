---- MODULE GlobGen ----
(* All small trees with all patterns of few parts; depth 2: a tree, then a  *)
(* glob.                                                                    *)
EXTENDS GlobSpec, GenBase
CONSTANTS MaxP, Forms
Op(n, a) == [o |-> n, a |-> a]
A == <<97>>  Bn == <<98, 97>>  H == <<46, 97>>
Universe == { <<A>>, <<Bn>>, <<H>>, <<A, A>>, <<A, Bn>>, <<A, H>>, <<H, A>>, <<Bn, A>>, <<A, A, A>>, <<A, H, A>>, <<A, Bn, A>> }
Inner == { c \in Universe : \E d \in Universe : Len(d) = Len(c) + 1 /\ SubSeq(d, 1, Len(c)) = c }
Closed(t) == \A c \in t : Len(c) = 1 \/ SubSeq(c, 1, Len(c) - 1) \in t
Enc(t, files) ==
  LET RECURSIVE Go(_)
      Go(s) == IF s = {} THEN <<>> ELSE LET c == CHOOSE x \in s : \A y \in s : Len(x) <= Len(y)
                                         IN << IF c \in files THEN 1 ELSE 2 >> \o Text(c) \o <<0>> \o Go(s \ {c})
  IN Go(t)
Kids(t, c) == { d \in t : Len(d) > Len(c) /\ SubSeq(d, 1, Len(c)) = c }
Leaves(t) == { c \in t : Kids(t, c) = {} }
Trees == { Enc(t, f) : t \in { x \in SUBSET Universe : Closed(x) /\ x # {} }, f \in {{}} } \cup
         UNION { { Enc(t, f) : f \in { Leaves(t), { c \in Leaves(t) : Len(c) > 1 } } } : t \in { x \in SUBSET Universe : Closed(x) /\ x # {} } }
Segs == { SS, <<Star>>, A, <<Star, 97>>, <<46, Star>>, <<Qm>>, <<98, Qm>> }
Pats == { Text(s) : s \in { x \in UNION { [1..k -> Segs] : k \in 1..MaxP } :
            Cardinality({ i \in DOMAIN x : x[i] = SS }) <= 1 /\ x[Len(x)] # SS } }
GlGenOps(s) == IF hist = <<>> THEN << { Op("tree", <<t>>) : t \in Trees } >>
               ELSE << { Op("glob", <<r, p, f>>) : r \in { <<>>, <<97>> }, p \in Pats, f \in Forms } >>
GlInv(s) == \A e \in s : Len(e[1]) = 1 \/ << SubSeq(e[1], 1, Len(e[1]) - 1), 2 >> \in s
====
