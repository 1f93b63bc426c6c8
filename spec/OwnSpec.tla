------------------------------- MODULE OwnSpec -------------------------------
(* Owning pointers.  Objects have ids; a slot owns the objects of its list  *)
(* (worlds 0, 1: at most one, unique_ptr; worlds 2, 3: an array, where an   *)
(* object's id is also its value).  raw: objects whose ownership was        *)
(* released; dead: how often a deleter has been given an object and how     *)
(* often an object has been destroyed.  Every object is destroyed once.     *)
EXTENDS SeqCommon
NSlot == 3
WInit(w) == [w |-> w, s |-> << <<>>, <<>>, <<>> >>, raw |-> <<>>, dead |-> 0, dels |-> 0]
WProj(st) == << [h \in 1..NSlot |-> IF st.w < 2 /\ st.s[h] = <<>> THEN <<>> ELSE st.s[h]], st.dead, st.dels >>
\* Deleting what slot h owns.
Del(st, h) == [st EXCEPT !.s[h] = <<>>, !.dead = @ + Len(st.s[h]), !.dels = @ + (IF st.s[h] = <<>> \/ st.w >= 2 THEN 0 ELSE 1)]
Give(st, h, c) == [Del(st, h) EXCEPT !.s[h] = c]
WOutcomes(st, o, a) ==
  LET h == a[1] + 1
      c == st.s[h]
      g == a[2] + 1
      Take == LET d == Del(st, h) IN [d EXCEPT !.s = [d.s EXCEPT ![h] = st.s[g], ![g] = <<>>]]
  IN CASE o \in {"new", "reset"} -> { Ok(Give(st, h, <<a[2]>>), <<>>) }
       [] o = "resetnull" -> { Ok(Del(st, h), <<>>) }
       [] o = "drop" -> { Ok(Del(st, h), <<>>) }
       [] o \in {"movector", "move"} -> IF a[1] = a[2] THEN { Ok(st, <<>>) } ELSE { Ok(Take, <<>>) }
       [] o = "swap" -> { Ok([st EXCEPT !.s = [st.s EXCEPT ![h] = st.s[g], ![g] = c]], <<>>) }
       [] o = "release" -> { Ok([st EXCEPT !.s[h] = <<>>, !.raw = @ \o c], <<IF c = <<>> THEN 0 ELSE c[1]>>) }
       [] o = "adopt" -> \* reset to the released object
            IF st.raw = <<>> THEN { Ok(st, <<>>) } ELSE { Ok([Give(st, h, <<st.raw[1]>>) EXCEPT !.raw = Tail(@)], <<>>) }
       [] o = "get" -> { Ok(st, <<IF c = <<>> THEN 0 ELSE c[1], B(c # <<>>)>>) }
       \* arrays
       [] o = "newarr" -> { Ok(Give(st, h, [i \in 1..a[2] |-> 100 + i]), <<>>) }   \* slot size form
       [] o = "idx" -> IF InR(a[2], Len(c)) THEN { Ok(st, <<c[a[2] + 1]>>) } ELSE { Exc(st) }  \* slot index form
       [] o = "set" -> IF InR(a[2], Len(c)) THEN { Ok([st EXCEPT !.s[h][a[2] + 1] = a[3]], <<>>) } ELSE { Exc(st) }
       [] o = "size" -> { Ok(st, <<Len(c), Len(c)>>) }
       [] OTHER -> {}
WAccept(st, e) == StdAccept(WOutcomes(st, e.o, e.a), e, WProj)
WTInit(t) == WInit(t.w - 20)
=============================================================================
