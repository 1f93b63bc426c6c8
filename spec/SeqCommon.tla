----------------------------- MODULE SeqCommon -----------------------------
(* Operators shared by the sequence-like components.                        *)
EXTENDS Integers, Sequences, FiniteSets

B(b) == IF b THEN 1 ELSE 0
Ok(s, r)  == [st |-> s, x |-> 0, r |-> r]
Exc(s)    == [st |-> s, x |-> 1, r |-> <<>>]

\* Negative numbers stand for sizes beyond any container (see harness/drv.hpp).
InR(i, n) == 0 <= i /\ i < n
RemoveAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))        \* i 0-based
InsertAt(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))
InsertSeq(s, i, t) == SubSeq(s, 1, i) \o t \o SubSeq(s, i + 1, Len(s))
CutSeq(s, from, to) == SubSeq(s, 1, from) \o SubSeq(s, to + 1, Len(s))  \* [from,to) 0-based
Const(n, v) == [i \in 1..n |-> v]
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a

\* Lexicographic three-way comparison of integer sequences.
LexCmp(s, t) ==
  LET m == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
      Diff(i) == s[i] # t[i]
  IN IF \E i \in 1..m : Diff(i)
     THEN LET i == CHOOSE k \in 1..m : Diff(k) /\ \A q \in 1..(k - 1) : ~Diff(q)
          IN IF s[i] < t[i] THEN -1 ELSE 1
     ELSE IF Len(s) < Len(t) THEN -1 ELSE IF Len(s) > Len(t) THEN 1 ELSE 0
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

\* A "quiet" event carries no projection (used while building large objects).
Quiet(e) == "q" \in DOMAIN e
StdAccept(outs, e, proj(_)) ==
  { [st |-> o.st, kf |-> ""] :
      o \in { q \in outs : q.x = e.x /\ (q.x # 0 \/ q.r = e.r) /\ (Quiet(e) \/ proj(q.st) = e.p) } }
=============================================================================
