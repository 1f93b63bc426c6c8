------------------------------ MODULE ViewSpec ------------------------------
(* String views.  A view is a window [b,e) of a text T that continues on    *)
(* both sides; every answer depends on the viewed bytes alone.              *)
EXTENDS SeqCommon

HasNul(t) == \E i \in 1..Len(t) : t[i] = 0
UpTo0(t) == LET z == {i \in 1..Len(t) : t[i] = 0}
            IN IF z = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
MatchAt(t, p, i) == i + Len(p) - 1 <= Len(t) /\ \A k \in 1..Len(p) : t[i + k - 1] = p[k]
Find(t, p) == LET m == {i \in 1..(Len(t) - Len(p) + 1) : MatchAt(t, p, i)}
              IN IF m = {} THEN -1 ELSE (CHOOSE i \in m : \A j \in m : i <= j) - 1
Prefix(t, p) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c

VOutcomes(st, o, a) ==
  LET T == a[1]
      V == SubSeq(T, a[2] + 1, a[3])
      n == Len(V)
      R(r) == { Ok(st, r) }
  IN CASE o = "text" -> R(V)
       [] o = "size" -> R(<<n, B(n = 0)>>)
       [] o = "range" -> IF a[2] <= a[3] THEN R(V) ELSE { Exc(st) }
       [] o = "eqz" -> R(<< B(V = UpTo0(a[4])) >>)
       [] o = "eqv" -> R(<< B(V = a[4]) >>)
       [] o = "startsz" -> R(<< B(Prefix(V, UpTo0(a[4]))) >>)
       [] o = "startsv" -> R(<< B(Prefix(V, a[4])) >>)
       [] o = "findc" -> R(<< Find(V, << a[4] >>) >>)
       [] o = "findv" -> R(<< Find(V, a[4]) >>)
       [] o = "less" -> R(<< B(LexCmp(V, a[4]) < 0), B(LexCmp(a[4], V) < 0) >>)
       [] o = "substr" ->   \* offset and text of the slice
            IF InR(a[4], n) THEN LET k == IF a[5] < 0 \/ a[5] > n - a[4] THEN n - a[4] ELSE a[5]
                                 IN R(<<a[4]>> \o SubSeq(V, a[4] + 1, a[4] + k))
            ELSE IF a[4] = n THEN { Exc(st), Ok(st, <<n>>) } ELSE { Exc(st) }
       [] o = "front" -> IF n = 0 THEN { Exc(st) } ELSE R(<< V[1] >>)
       [] o \in {"idx", "at"} -> IF InR(a[4], n) THEN R(<< V[a[4] + 1] >>) ELSE { Exc(st) }
       [] o = "overlaps" ->   \* two windows of the same text
            R(<< B(\E k \in (a[2] + 1)..a[3] : k \in (a[4] + 1)..a[5]) >>)
       [] o = "iter" -> R(V)
       [] o = "upper" -> IF HasNul(V) THEN { Exc(st) } ELSE R([i \in 1..n |-> Upper(V[i])])
       [] o = "lower" -> IF HasNul(V) THEN { Exc(st) } ELSE R([i \in 1..n |-> Lower(V[i])])
       [] o = "tocstr" -> IF HasNul(V) THEN { Exc(st) } ELSE R(V)
       \* Terminated views: T is a C string; the view starts at a[2].
       [] o = "zsize" -> LET z == UpTo0(SubSeq(T, a[2] + 1, Len(T))) IN R(<< Len(z) >> \o z)
       [] o = "zsub" -> LET z == UpTo0(T) IN IF InR(a[2], Len(z) + 1) THEN R(SubSeq(z, a[2] + 1, Len(z))) ELSE { Exc(st) }
       [] o = "zeq" -> R(<< B(UpTo0(T) = UpTo0(a[4])), B(UpTo0(T) = UpTo0(a[4])) >>)
       [] o = "null" -> R(<<0, 1, 0, 1, 1, 1, 1, -1, 1, 1>>)
       [] OTHER -> {}
NoProj(s) == <<>>
VAccept(s, e) == StdAccept(VOutcomes(s, e.o, e.a), e, NoProj)
VTInit(t) == <<>>
=============================================================================
