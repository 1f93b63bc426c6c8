------------------------------- MODULE SpanSpec ------------------------------
(* Views of arrays.  Operations take the array, the span [b, e) and their   *)
(* arguments; the array lies in an exactly sized block.                     *)
EXTENDS SeqCommon
Sub(a) == SubSeq(a[1], a[2] + 1, a[3])
\* Sum of k % 101 for k < n.
Ramp(n) == (n \div 101) * 5050 + ((n % 101) * ((n % 101) - 1)) \div 2
POutcomes(s, o, a) == IF o = "wide" THEN
    \* width number index offset length; the elements are 0, 1, ... 100, 0, ...
    IF a[3] >= a[2] \/ a[4] + a[5] > a[2] THEN { Exc(s) }
    ELSE { Ok(s, <<a[2], a[5], a[2] * a[1], a[5] * a[1], a[3] % 101, a[5], Ramp(a[4] + a[5]) - Ramp(a[4])>>) }
  ELSE
  LET v == Sub(a) n == Len(v)
  IN CASE o = "all" -> { Ok(s, v) }   \* iteration
       [] o = "size" -> { Ok(s, <<n, n, B(n = 0)>>) }
       [] o = "idx" -> IF InR(a[4], n) THEN { Ok(s, <<v[a[4] + 1]>>) } ELSE { Exc(s) }    \* index form
       [] o = "set" -> IF InR(a[4], n) THEN { Ok(s, SubSeq(a[1], 1, a[2] + a[4]) \o <<a[5]>> \o SubSeq(a[1], a[2] + a[4] + 2, Len(a[1]))) } ELSE { Exc(s) }
       [] o = "sub1" -> \* offset: the rest
            IF a[4] = n THEN { Ok(s, <<>>), Exc(s) }
            ELSE IF InR(a[4], n) THEN { Ok(s, SubSeq(v, a[4] + 1, n)) } ELSE { Exc(s) }
       [] o = "sub" -> \* offset size; -1 is "the rest"
            IF a[4] = n /\ a[5] \in {-1, 0} THEN { Ok(s, <<>>), Exc(s) }
            ELSE IF ~InR(a[4], n) THEN { Exc(s) }
            ELSE IF a[5] = -1 THEN { Ok(s, SubSeq(v, a[4] + 1, n)) }
            ELSE IF a[5] < 0 \/ a[5] > n - a[4] THEN { Exc(s) }
            ELSE { Ok(s, SubSeq(v, a[4] + 1, a[4] + a[5])) }
       [] o = "assign" -> { Ok(s, v \o v \o v) }  \* copies and moves see the same elements
       [] o = "empty" -> { Ok(s, <<0>>) }
       [] OTHER -> {}
PProj(s) == <<>>
PAccept(s, e) == StdAccept(POutcomes(s, e.o, e.a), e, PProj)
PInit == <<>>
PTInit(t) == PInit
=============================================================================
