--------------------------- MODULE FixedCStrSpec ---------------------------
(* The fixed-capacity character string: two objects of capacity cap and one *)
(* of a different capacity (third handle, cap + 5).                         *)
EXTENDS SeqCommon
XCaps == <<1, 3, 8, 40>>
XInit(cap) == [cap |-> cap, v |-> << <<>>, <<>>, <<>> >>]
XCap(s, h) == IF h = 3 THEN s.cap + 5 ELSE s.cap
XProj(s) == << s.v[1], <<Len(s.v[1]), Len(s.v[1]), B(s.v[1] = <<>>)>>,
               s.v[2], <<Len(s.v[2]), Len(s.v[2]), B(s.v[2] = <<>>)>>,
               s.v[3], <<Len(s.v[3]), Len(s.v[3]), B(s.v[3] = <<>>)>> >>
XOutcomes(s, o, a) ==
  LET h == a[1] + 1
      c == s.v[h]
      n == Len(c)
      cap == XCap(s, h)
      Put(w) == [s EXCEPT !.v[h] = w]
      Fit(t) == IF Len(t) > cap THEN { Exc(s) } ELSE { Ok(Put(t), <<>>) }
  IN CASE o \in {"ctorz", "ctorn", "setv"} -> Fit(a[2])
       [] o = "setself" -> IF 0 <= a[2] /\ a[2] <= a[3] /\ a[3] <= n
                           THEN { Ok(Put(SubSeq(c, a[2] + 1, a[3])), <<>>) } \cup (IF a[2] > 0 THEN { Exc(s) } ELSE {})
                           ELSE { Ok(s, <<>>) }
       [] o = "pop" -> { Ok(Put(IF n = 0 THEN c ELSE SubSeq(c, 1, n - 1)), <<>>) }
       [] o \in {"copy", "copyctor"} -> Fit(s.v[a[2] + 1])        \* handles 1 and 2
       [] o = "cross" -> Fit(s.v[a[2] + 1])                      \* between capacities
       [] o \in {"move", "movector"} ->
            IF a[2] = a[1] THEN { Ok(s, <<>>) }
            ELSE { Ok([s EXCEPT !.v[h] = s.v[a[2] + 1], !.v[a[2] + 1] = <<>>], <<>>) }
       [] o = "get" -> IF InR(a[2], n) THEN { Ok(s, << c[a[2] + 1] >>) }
                       ELSE IF a[2] = n THEN { Ok(s, <<0>>), Exc(s) }
                       ELSE { Exc(s) }
       [] o = "set" -> IF InR(a[2], n) THEN { Ok(Put([c EXCEPT ![a[2] + 1] = a[3]]), <<>>) } ELSE { Exc(s) }
       [] o = "eqz" -> { Ok(s, << B(c = a[2]) >>) }
       [] o = "eqv" -> { Ok(s, << B(c = a[2]) >>) }
       [] OTHER -> {}
XAccept(s, e) == StdAccept(XOutcomes(s, e.o, e.a), e, XProj)
XTInit(t) == XInit(XCaps[t.w - 9])
XInvariant(s) == \A h \in 1..3 : Len(s.v[h]) <= XCap(s, h)
=============================================================================
