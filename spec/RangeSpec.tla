------------------------------ MODULE RangeSpec ------------------------------
(* Numeric ranges, and the views that turn next() iteration into loops.     *)
(* Numbers beyond +-5*10^8 stand for the neighbourhood of the 64 bit limits:*)
(* 10^9 is the largest and -10^9 the smallest one (see harness/misc.cpp).   *)
(* State: <<i, end, step>> of the current range.                            *)
EXTENDS SeqCommon, SequencesExt
RInit == <<0, 0, 1>>
Limit == 1000000000
More(s) == IF s[3] > 0 THEN s[1] < s[2] ELSE s[1] > s[2]
\* The number of values left; only used for short ranges.
Count(s) == IF ~More(s) THEN 0
            ELSE IF s[3] > 0 THEN ((s[2] - s[1]) - 1) \div s[3] + 1 ELSE ((s[1] - s[2]) - 1) \div (-s[3]) + 1
Values(s) == [k \in 1..Count(s) |-> s[1] + (k - 1) * s[3]]
\* Addition that stops at the limits, where every range has ended.
Plus(a, b) == IF b > 0 /\ a > Limit - b THEN Limit ELSE IF b < 0 /\ a < (-Limit) - b THEN -Limit ELSE a + b
Overflows(a, b) == (b > 0 /\ a > Limit - b) \/ (b < 0 /\ a < (-Limit) - b)
Next1(s) == IF Overflows(s[1], s[3]) THEN <<s[2], s[2], s[3]>> ELSE <<s[1] + s[3], s[2], s[3]>>
ROutcomes(s, o, a) ==
  CASE o = "mk" -> \* start end step form; form 1: Range(end), 2: Range(start, end)
       LET q == CASE a[4] = 1 -> <<0, a[2], 1>> [] a[4] = 2 -> <<a[1], a[2], 1>> [] OTHER -> <<a[1], a[2], a[3]>>
       IN IF q[3] = 0 THEN { Exc(s) } ELSE { Ok(q, <<>>) }
    [] o = "next" -> IF More(s) THEN { Ok(Next1(s), <<1, s[1]>>) } ELSE { Ok(s, <<0>>) }
    [] o \in {"loop", "loopsume"} ->  \* the rest, then what next() says afterwards
       LET n == Count(s) IN { Ok(IF n = 0 \/ o = "loopsume" THEN s ELSE <<s[2], s[2], s[3]>>, Values(s) \o (IF o = "loop" THEN <<0>> ELSE <<>>)) }
    [] o = "copy" -> { Ok(s, IF More(s) THEN <<1, s[1]>> ELSE <<0>>) }   \* advancing a copy leaves the original alone
    [] o = "enum" -> \* values; every element with its index, as pairs
       { Ok(s, [k \in 1..(2 * Len(a[1])) |-> IF k % 2 = 1 THEN (k - 1) \div 2 ELSE a[1][k \div 2] + 1]) }
    [] o = "enum2" -> \* values, how many of them the first of two traversals sees; the second one has a third within
       LET n == Len(a[1])
           P(m) == FlattenSeq([k \in 1..m |-> <<k - 1, a[1][k]>>])
       IN { Ok(s, P(IF a[2] < n THEN a[2] ELSE n) \o FlattenSeq([k \in 1..n |-> <<k - 1, a[1][k]>> \o [j \in 1..n |-> j - 1]])) }
    [] o \in {"enumbig", "loopbig"} -> { Ok(s, <<a[1], 0>>) }  \* number: visited, and how many of them wrongly
    [] OTHER -> {}
RProj(s) == <<>>
RAccept(s, e) == StdAccept(ROutcomes(s, e.o, e.a), e, RProj)
RTInit(t) == RInit
=============================================================================
