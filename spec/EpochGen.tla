---- MODULE EpochGen ----
EXTENDS EpochSpec, GenBase
Op(n, a) == [o |-> n, a |-> a]
H == 0..2
EGenOps(s) == << { Op("push", <<h, 3 - h>>) : h \in H }, { Op("pop", <<h>>) : h \in H }, { Op("sort", <<h>>) : h \in H },
  UNION { { Op(n, <<h, k>>) : k \in H \ {h} } : n \in {"take", "taketext"}, h \in H },
  { Op("put", <<h, 1, h>>) : h \in H }, { Op("text", <<h, <<97 + h, 195, 169, 195, 159>> >>) : h \in H }, { Op("upper", <<h>>) : h \in H },
  { Op("fail", <<h, k>>) : h \in H, k \in 0..1 } >>
\* Every value an edition holds is one that was given to some edition.
ESInv(s) == \A e \in H : /\ \A i \in DOMAIN s[e].v : \E k \in DOMAIN hist : hist[k][1] = "push" /\ hist[k][2][2] = s[e].v[i]
                         /\ s[e].t # <<>> => \E k \in DOMAIN hist : hist[k][1] = "text" /\ hist[k][2][2] = s[e].t
                         /\ s[e].m # Ed0.m => \E k \in DOMAIN hist : hist[k][1] = "put" /\ hist[k][2][1] = e
====
