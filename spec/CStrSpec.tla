------------------------------ MODULE CStrSpec ------------------------------
(* The character string.  State: two strings, each a sequence of 1..255 (no *)
(* terminator inside).  The projection reports, for each string, its text   *)
(* and <<size, C length, empty?>>, so a missing or misplaced terminator is  *)
(* visible after every operation.                                           *)
EXTENDS SeqCommon

CInit == << <<>>, <<>> >>
CProj(s) == << s[1], <<Len(s[1]), Len(s[1]), B(s[1] = <<>>)>>, s[2], <<Len(s[2]), Len(s[2]), B(s[2] = <<>>)>> >>

HasNul(t) == \E i \in 1..Len(t) : t[i] = 0
IsBlank(c) == c \in {32, 9, 10, 13}
Strip(t) ==
  LET keep == {i \in 1..Len(t) : ~IsBlank(t[i])}
  IN IF keep = {} THEN <<>>
     ELSE SubSeq(t, CHOOSE i \in keep : \A j \in keep : i <= j, CHOOSE i \in keep : \A j \in keep : i >= j)
MatchAt(t, p, i) == i + Len(p) - 1 <= Len(t) /\ \A k \in 1..Len(p) : t[i + k - 1] = p[k]
Find(t, p) == LET m == {i \in 1..(Len(t) - Len(p) + 1) : MatchAt(t, p, i)}
              IN IF m = {} THEN -1 ELSE (CHOOSE i \in m : \A j \in m : i <= j) - 1
RFindC(t, ch) == LET m == {i \in 1..Len(t) : t[i] = ch}
                 IN IF m = {} THEN -1 ELSE (CHOOSE i \in m : \A j \in m : i >= j) - 1
UpTo0(t) == LET z == {i \in 1..Len(t) : t[i] = 0}
            IN IF z = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)

COutcomes(s, o, a) ==
  LET h == a[1] + 1
      c == s[h]
      n == Len(c)
      Put(v) == [s EXCEPT ![h] = v]
      Checked(t, v) == IF HasNul(t) THEN { Exc(s) } ELSE { Ok(Put(v), <<>>) }
      Sub(i, j) == SubSeq(c, i + 1, j)
      RangeOk == 0 <= a[2] /\ a[2] <= a[3] /\ a[3] <= n
  IN CASE o \in {"append1", "push", "plusc"} -> IF a[2] = 0 THEN { Exc(s) } ELSE { Ok(Put(Append(c, a[2])), <<>>) }
       [] o \in {"appendn", "appendr", "appendv"} -> Checked(a[2], c \o a[2])
       [] o \in {"appendz", "plusz"} -> { Ok(Put(c \o UpTo0(a[2])), <<>>) }   \* a C string argument
       [] o = "pluss" -> { Ok(Put(c \o s[a[2] + 1]), <<>>) }
       [] o = "appendself" -> IF RangeOk THEN { Ok(Put(c \o Sub(a[2], a[3])), <<>>) } ELSE { Ok(s, <<>>) }
       [] o = "plusself" -> IF InR(a[2], n + 1) THEN { Ok(Put(c \o Sub(a[2], n)), <<>>) } ELSE { Ok(s, <<>>) }
       [] o = "setself" -> IF InR(a[2], n + 1) THEN { Ok(Put(Sub(a[2], n)), <<>>) } ELSE { Ok(s, <<>>) }
       [] o = "insself" -> IF RangeOk THEN (IF InR(a[4], n + 1) THEN { Ok(Put(InsertSeq(c, a[4], Sub(a[2], a[3]))), <<>>) } ELSE { Exc(s) })
                           ELSE { Ok(s, <<>>) }
       [] o = "fill" -> { Ok(Put(c \o [i \in 1..a[2] |-> 1 + ((i * 7 + a[3]) % 255)]), <<>>) }
       [] o \in {"ctorn", "ctorb", "ctorv"} -> Checked(a[2], a[2])
       [] o \in {"ctorz", "setz"} -> { Ok(Put(UpTo0(a[2])), <<>>) }
       [] o = "insert" -> IF HasNul(a[3]) \/ ~InR(a[2], n + 1) THEN { Exc(s) }
                          ELSE { Ok(Put(InsertSeq(c, a[2], a[3])), <<>>) }
       [] o = "remove" ->
            IF RangeOk THEN { Ok(Put(CutSeq(c, a[2], a[3])), <<>>) }
            ELSE IF a[2] = a[3] THEN { Exc(s), Ok(s, <<>>) } ELSE { Exc(s) }
       [] o = "substr" ->
            IF InR(a[2], n) THEN { Ok(s, Sub(a[2], IF a[3] < 0 \/ a[3] > n - a[2] THEN n ELSE a[2] + a[3])) }
            ELSE IF a[2] = n THEN { Exc(s), Ok(s, <<>>) } ELSE { Exc(s) }
       [] o = "pop" -> { Ok(Put(IF n = 0 THEN c ELSE SubSeq(c, 1, n - 1)), <<>>) }
       \* The driver writes 238 over the characters a growing resize leaves unspecified.
       [] o = "resize" -> { Ok(Put(IF a[2] <= n THEN SubSeq(c, 1, a[2]) ELSE c \o Const(a[2] - n, 238)), <<>>) }
       [] o = "reserve" -> { Ok(s, <<>>) }
       [] o = "clear" -> { Ok(Put(<<>>), <<>>) }
       [] o = "strip" -> { Ok(Put(Strip(c)), <<>>) }
       [] o \in {"copy", "copyctor"} -> { Ok(Put(s[a[2] + 1]), <<>>) }
       [] o = "move" -> IF a[2] = a[1] THEN { Ok(s, <<>>) }
                        ELSE { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = <<>>], <<>>) }
       [] o = "movector" -> { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = <<>>], <<>>) }
       [] o = "get" -> IF InR(a[2], n) THEN { Ok(s, << c[a[2] + 1] >>) }
                       ELSE IF a[2] = n THEN { Exc(s), Ok(s, <<0>>) } ELSE { Exc(s) }
       [] o = "front" -> IF n = 0 THEN { Exc(s), Ok(s, <<0>>) } ELSE { Ok(s, << c[1] >>) }
       [] o = "back" -> IF n = 0 THEN { Exc(s) } ELSE { Ok(s, << c[n] >>) }
       [] o = "cmp" -> LET d == s[a[2] + 1] k == LexCmp(c, d) IN { Ok(s, << B(c = d), k, B(c = d), B(c = d), B(k < 0), B(k > 0) >>) }
       [] o = "eqz" -> { Ok(s, << B(c = UpTo0(a[2])) >>) }
       [] o = "eqv" -> { Ok(s, << B(c = a[2]) >>) }
       [] o = "find" -> { Ok(s, << Find(c, a[2]) >>) }
       [] o = "rfind" -> { Ok(s, << RFindC(c, a[2]) >>) }
       [] o = "upper" -> { Ok(s, [i \in 1..n |-> IF c[i] \in 97..122 THEN c[i] - 32 ELSE c[i]]) }   \* ASCII only
       [] o = "lower" -> { Ok(s, [i \in 1..n |-> IF c[i] \in 65..90 THEN c[i] + 32 ELSE c[i]]) }
       [] o \in {"view", "zview"} -> { Ok(s, c) }
       [] OTHER -> {}

CAccept(s, e) == StdAccept(COutcomes(s, e.o, e.a), e, CProj)
CTInit(t) == CInit
CInvariant(s) == \A h \in 1..2 : \A i \in 1..Len(s[h]) : s[h][i] \in 1..255
=============================================================================
