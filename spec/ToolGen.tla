---- MODULE ToolGen ----
(* All small inputs of the programs that come with the library.             *)
EXTENDS ToolSpec, GenBase
CONSTANTS MaxT, MaxN
Op(n, a) == [o |-> n, a |-> a]
Sym == { <<32>>, <<10>>, <<97>>, <<98, 97>>, <<195, 169>> }
PT == { FlattenSeq(q) : q \in UNION { [1..m -> Sym] : m \in 0..MaxT } }
Nums == UNION { [1..m -> 0..(m - 1)] : m \in 1..MaxN }
ToOutcomes(s, o, a) == { [st |-> s] }
ToGenOps(s) == << { Op(n, <<t>>) : n \in {"wordsort", "wordcount"}, t \in PT },
                  { Op("sort", <<k, q>>) : k \in 0..2, q \in Nums } >>
\* What the specification says of a list of words holds of exactly its sorted arrangements.
ToInv(s) == \A i \in DOMAIN hist : hist[i][1] = "wordsort" =>
  LET t == hist[i][2][1]
      ps == Pieces(t, IsBlank)
      f == SortSeq(ps, LAMBDA x, y : LexCmp(x, y) < 0)
      out(q) == FlattenSeq([k \in DOMAIN q |-> q[k] \o <<NL>>])
  IN WordSort(t, out(f)) /\ (Len(f) > 1 /\ f[1] # f[Len(f)] => ~WordSort(t, out(<<f[Len(f)]>> \o SubSeq(f, 1, Len(f) - 1))))
====
