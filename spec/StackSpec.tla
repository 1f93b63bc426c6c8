----------------------------- MODULE StackSpec -----------------------------
(* The last-in first-out stack.  Only the size and the top are observable.  *)
EXTENDS SeqCommon
SInit2 == << <<>>, <<>> >>
SProj(s) == [h \in 1..2 |-> IF s[h] = <<>> THEN <<0>>
                           ELSE <<Len(s[h]), s[h][Len(s[h])], s[h][Len(s[h])]>>]
SOutcomes(s, o, a) ==
  LET h == a[1] + 1
      c == s[h]
      n == Len(c)
      Put(v) == [s EXCEPT ![h] = v]
  IN CASE o = "push" -> { Ok(Put(Append(c, a[2])), <<>>) }
       [] o = "pushself" -> { Ok(Put(IF n = 0 THEN c ELSE Append(c, c[n])), <<>>) }
       [] o = "pop" -> { Ok(Put(SubSeq(c, 1, MaxI(0, n - 1))), <<>>) }
       [] o = "popn" -> { Ok(Put(SubSeq(c, 1, n - MinI(n, a[2]))), <<>>) }
       [] o = "fill" -> { Ok(Put(c \o [i \in 1..a[2] |-> (i * 7 + a[3]) % 100]), <<>>) }
       [] o = "clear" -> { Ok(Put(<<>>), <<>>) }
       [] o = "top" -> IF n = 0 THEN { Exc(s) } ELSE { Ok(s, << c[n] >>) }
       [] o = "set" -> IF n = 0 THEN { Exc(s) } ELSE { Ok(Put([c EXCEPT ![n] = a[2]]), <<>>) }
       [] o = "move" -> IF a[2] = a[1] THEN { Ok(s, <<>>) }
                        ELSE { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = <<>>], <<>>) }
       [] o = "movector" -> { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = <<>>], <<>>) }
       [] OTHER -> {}
SAccept(s, e) == StdAccept(SOutcomes(s, e.o, e.a), e, SProj)
STInit(t) == SInit2
=============================================================================
