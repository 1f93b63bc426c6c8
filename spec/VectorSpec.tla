----------------------------- MODULE VectorSpec -----------------------------
(* The growable array.  State: two array objects, each a finite sequence of *)
(* element values; a moved-from array is empty and usable.                  *)
EXTENDS SeqCommon

VInit == << <<>>, <<>> >>
VProj(s) == s

\* The number of elements may not exceed the capacity, and capacity reserved
\* stays reserved: the driver reports (capacity >= size /\ capacity >= request).
VOutcomes(s, o, a) ==
  LET h == a[1] + 1
      c == s[h]
      n == Len(c)
      Put(v) == [s EXCEPT ![h] = v]
  IN CASE o \in {"push", "pushm", "emplace"} -> { Ok(Put(Append(c, a[2])), <<>>) }
       [] o \in {"pushself", "emplself"} ->
            IF InR(a[2], n) THEN { Ok(Put(Append(c, c[a[2] + 1])), <<>>) } ELSE { Ok(s, <<>>) }
       [] o = "pushmself" ->             \* the element is moved to the end and replaced by 77
            IF InR(a[2], n) THEN { Ok(Put(Append([c EXCEPT ![a[2] + 1] = 77], c[a[2] + 1])), <<>>) } ELSE { Ok(s, <<>>) }
       [] o = "uat" -> IF InR(a[2], n) THEN { Ok(s, << c[a[2] + 1] >>) } ELSE { Ok(s, <<>>) }
       [] o = "fill" -> { Ok(Put(c \o [i \in 1..a[2] |-> (i * 7 + a[3]) % 100]), <<>>) }
       [] o = "popn" -> { Ok(Put(SubSeq(c, 1, n - MinI(n, a[2]))), <<>>) }
       [] o = "appendsub" ->
            LET t == s[a[2] + 1] IN
            IF a[4] <= Len(t) /\ a[3] <= a[4] /\ Len(t) > 0
            THEN { Ok(Put(c \o SubSeq(t, a[3] + 1, a[4])), <<>>) } ELSE { Ok(s, <<>>) }
       [] o = "pop" -> IF n = 0 THEN { Ok(s, <<>>) }
                       ELSE { Ok(Put(SubSeq(c, 1, n - 1)), << c[n] >>) }
       [] o = "clear" -> { Ok(Put(<<>>), <<>>) }
       [] o = "reserve" -> { Ok(s, <<1, 1>>) }
       [] o = "append" -> { Ok(Put(c \o a[2]), <<>>) }
       [] o = "assign" -> { Ok(Put(a[2]), <<>>) }
       [] o = "ctor" -> { Ok(Put(a[2]), <<>>) }
       [] o = "appendv" -> IF a[2] = a[1]
                           THEN (IF n = 0 THEN { Ok(s, <<>>) } ELSE { Exc(s) })
                           ELSE { Ok(Put(c \o s[a[2] + 1]), <<>>) }
       [] o = "assignv" -> IF a[2] = a[1]
                           THEN (IF n = 0 THEN { Ok(s, <<>>) } ELSE { Exc(s) })
                           ELSE { Ok(Put(s[a[2] + 1]), <<>>) }
       [] o = "copy" -> { Ok(Put(s[a[2] + 1]), <<>>) }
       [] o = "move" -> IF a[2] = a[1] THEN { Ok(s, <<>>) }
                        ELSE { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = <<>>], <<>>) }
       [] o = "movector" -> { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = <<>>], <<>>) }
       [] o \in {"get", "at", "cget"} -> IF InR(a[2], n) THEN { Ok(s, << c[a[2] + 1] >>) } ELSE { Exc(s) }
       [] o = "set" -> IF InR(a[2], n) THEN { Ok(Put([c EXCEPT ![a[2] + 1] = a[3]]), <<>>) } ELSE { Exc(s) }
       [] o = "front" -> IF n = 0 THEN { Exc(s) } ELSE { Ok(s, << c[1] >>) }
       [] o = "back" -> IF n = 0 THEN { Exc(s) } ELSE { Ok(s, << c[n] >>) }
       [] o = "size" -> { Ok(s, << n, B(n = 0) >>) }
       [] o = "iter" -> { Ok(s, c) }
       [] o = "span" -> { Ok(s, c) }
       [] o = "eq" -> { Ok(s, << B(c = s[a[2] + 1]), B(c # s[a[2] + 1]) >>) }
       [] o = "appdef" -> { Ok(Put(c \o Const(a[2], 0)), <<>>) }
       [] OTHER -> {}

VAccept(s, e) == StdAccept(VOutcomes(s, e.o, e.a), e, VProj)
VTInit(t) == VInit
=============================================================================
