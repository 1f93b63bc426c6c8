------------------------------ MODULE EpochSpec ------------------------------
(* Several editions of the library in one program: the frozen one, the      *)
(* current one, and one made from the current one by the release script.    *)
(* State: per edition a sequence of values, a map and a text.  What is done *)
(* through one edition changes that edition's values only; values handed    *)
(* over arrive as they are; a failure is an exception of the edition that   *)
(* failed.                                                                  *)
EXTENDS SeqCommon, SequencesExt, Functions
Ed0 == [v |-> <<>>, m |-> [k \in {} |-> 0], t |-> <<>>]
EInit == [e \in 0..2 |-> Ed0]
Cased == [c \in 0..255 |-> IF c \in 97..122 THEN c - 32 ELSE c]
\* upper case of texts made of ASCII letters, e with acute accent (195 169) and sharp s (195 159)
Upper(t) ==
  FlattenSeq([i \in DOMAIN t |->
    IF t[i] = 195 THEN (IF t[i + 1] = 159 THEN <<83, 83>> ELSE <<195>>)
    ELSE IF i > 1 /\ t[i - 1] = 195 THEN (IF t[i] = 169 THEN <<137>> ELSE IF t[i] = 159 THEN <<>> ELSE <<t[i]>>)
    ELSE << Cased[t[i]] >>])
ELook(m, k) == IF k \in DOMAIN m THEN m[k] ELSE -1
EOne(s, e) == << s[e].v, [k \in 1..12 |-> ELook(s[e].m, k - 1)], s[e].t, Cardinality(DOMAIN s[e].m) >>
EProj(s) == << EOne(s, 0), EOne(s, 1), EOne(s, 2) >>
EOutcomes(s, o, a) ==
  LET h == a[1]
      x == s[h]
      V(q) == { Ok([s EXCEPT ![h].v = q], <<>>) }
  IN CASE o = "push" -> V(Append(x.v, a[2]))
       [] o = "pop" -> IF x.v = <<>> THEN {} ELSE V(SubSeq(x.v, 1, Len(x.v) - 1))
       [] o = "sort" -> V(SortSeq(x.v, LAMBDA p, q : p < q))
       [] o = "take" -> V(x.v \o s[a[2]].v)
       [] o = "put" -> { Ok([s EXCEPT ![h].m = (a[2] :> a[3]) @@ @], <<>>) }
       [] o = "text" -> { Ok([s EXCEPT ![h].t = a[2]], <<>>) }
       [] o = "taketext" -> { Ok([s EXCEPT ![h].t = s[a[2]].t], <<>>) }
       [] o = "upper" -> { Ok(s, Upper(x.t)) }
       [] o = "fail" -> { Ok(s, << h >>) }
       [] o = "made" -> { Ok(s, <<>>) }    \* the release script made the new edition, and it compiles and links
       [] OTHER -> {}
EAccept(s, e) == IF e.o = "made" THEN (IF e.x = 0 THEN { [st |-> s, kf |-> ""] } ELSE {}) ELSE StdAccept(EOutcomes(s, e.o, e.a), e, EProj)
ETInit(t) == EInit
=============================================================================
