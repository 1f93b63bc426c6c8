----------------------------- MODULE BytesSpec -----------------------------
(* The byte buffer.  State: two buffers, each a sequence of 0..255.         *)
EXTENDS SeqCommon

BInit == << <<>>, <<>> >>
BProj(s) == s

\* New bytes of a grown buffer are unspecified until written; the driver
\* writes 238 into each of them.
Grow(c, n) == c \o Const(n, 238)

BOutcomes(s, o, a) ==
  LET h == a[1] + 1
      c == s[h]
      n == Len(c)
      Put(v) == [s EXCEPT ![h] = v]
  IN CASE o \in {"push", "append1"} -> { Ok(Put(Append(c, a[2])), <<>>) }
       [] o = "append" -> { Ok(Put(c \o a[2]), <<>>) }
       [] o = "appendself" ->            \* from a range of its own contents
            IF 0 <= a[2] /\ a[2] <= a[3] /\ a[3] <= n
            THEN { Ok(Put(c \o SubSeq(c, a[2] + 1, a[3])), <<>>) } ELSE { Ok(s, <<>>) }
       [] o = "assignself" ->
            IF 0 <= a[2] /\ a[2] <= a[3] /\ a[3] <= n
            THEN { Ok(Put(SubSeq(c, a[2] + 1, a[3])), <<>>) } ELSE { Ok(s, <<>>) }
       [] o = "pluseq" -> { Ok(Put(c \o s[a[2] + 1]), <<>>) }
       [] o = "fill" -> { Ok(Put(c \o [i \in 1..a[2] |-> (i * 7 + a[3]) % 256]), <<>>) }
       [] o \in {"assign", "ctor", "ctor2"} -> { Ok(Put(a[2]), <<>>) }
       [] o = "ctorfill" -> { Ok(Put(Const(a[2], a[3])), <<>>) }
       [] o = "ctorsize" -> { Ok(Put(<<>>), <<>>) }
       [] o = "insert" ->
            IF InR(a[2], n) THEN { Ok(Put(InsertSeq(c, a[2], a[3])), <<>>) }
            ELSE IF a[2] = n THEN { Exc(s), Ok(Put(c \o a[3]), <<>>) }   \* either reading is acceptable
            ELSE { Exc(s) }
       [] o = "remove" ->
            IF a[2] > a[3] /\ a[3] >= 0 /\ a[2] >= 0 THEN { Exc(s) }
            ELSE IF a[2] = a[3] /\ ~(0 <= a[2] /\ a[2] <= n) THEN { Ok(s, <<>>), Exc(s) }  \* empty range outside
            ELSE IF 0 <= a[2] /\ a[2] <= a[3] /\ a[3] <= n THEN { Ok(Put(CutSeq(c, a[2], a[3])), <<>>) }
            ELSE { Exc(s) }
       [] o = "popback" -> { Ok(Put(IF a[2] < 0 \/ a[2] >= n THEN <<>> ELSE SubSeq(c, 1, n - a[2])), <<>>) }
       [] o = "shrink" -> { Ok(Put(IF a[2] < 0 \/ a[2] >= n THEN <<>> ELSE SubSeq(c, 1, n - a[2])), <<>>) }
       [] o = "popfront" -> { Ok(Put(IF a[2] < 0 \/ a[2] >= n THEN <<>> ELSE SubSeq(c, a[2] + 1, n)), <<>>) }
       [] o = "extend" -> { Ok(Put(Grow(c, a[2])), <<>>) }
       [] o = "resize" -> { Ok(Put(IF a[2] <= n THEN SubSeq(c, 1, a[2]) ELSE Grow(c, a[2] - n)), <<>>) }
       [] o = "reserve" -> { Ok(s, <<1, 1>>) }
       [] o = "clear" -> { Ok(Put(<<>>), <<>>) }
       [] o \in {"copy", "copyctor"} -> { Ok(Put(s[a[2] + 1]), <<>>) }
       [] o = "move" -> IF a[2] = a[1] THEN { Ok(s, <<>>) }
                        ELSE { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = <<>>], <<>>) }
       [] o = "movector" -> { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = <<>>], <<>>) }
       [] o = "get" -> IF InR(a[2], n) THEN { Ok(s, << c[a[2] + 1] >>) } ELSE { Exc(s) }
       [] o = "ctorrev" -> IF n = 0 THEN { Ok(s, <<>>) } ELSE { Exc(s) }
       [] o = "front" -> IF n = 0 THEN { Exc(s) } ELSE { Ok(s, << c[1] >>) }
       [] o = "back" -> IF n = 0 THEN { Exc(s) } ELSE { Ok(s, << c[n] >>) }
       [] o = "size" -> { Ok(s, << n, B(n = 0) >>) }
       [] o \in {"iter", "span"} -> { Ok(s, c) }
       [] o = "cmp" -> LET d == s[a[2] + 1] k == LexCmp(c, d) IN { Ok(s, << B(c = d), B(k < 0), k >>) }
       [] o = "within" -> { Ok(s, << B(InR(a[2], n)) >>) }
       [] OTHER -> {}

BAccept(s, e) == StdAccept(BOutcomes(s, e.o, e.a), e, BProj)
BTInit(t) == BInit
BInvariant(s) == \A h \in 1..2 : \A i \in 1..Len(s[h]) : s[h][i] \in 0..255
=============================================================================
