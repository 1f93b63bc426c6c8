------------------------------- MODULE OptSpec -------------------------------
(* Three optionals of the same element type.  A slot is <<>> or <<v>>.      *)
(* Worlds 0..3: Optional<T>; world 4: Optional<T*> (never empties a moved-  *)
(* from source, which owns nothing).                                        *)
EXTENDS SeqCommon
OInit(w) == [w |-> w, s |-> << <<>>, <<>>, <<>> >>]
OProj(st) == [h \in 1..3 |-> IF st.s[h] = <<>> THEN <<0>> ELSE <<1, st.s[h][1]>>]
OOutcomes(st, o, a) ==
  LET h == a[1] + 1
      c == st.s[h]
      g == a[2] + 1
      Put(v) == [st EXCEPT !.s[h] = v]
      Moved == IF st.w = 4
               THEN { [st EXCEPT !.s[h] = st.s[g]], [st EXCEPT !.s = [st.s EXCEPT ![h] = st.s[g], ![g] = <<>>]] }
               ELSE { [st EXCEPT !.s = [st.s EXCEPT ![h] = st.s[g], ![g] = <<>>]] }
  IN CASE o \in {"ctor", "assign"} -> { Ok(Put(<<a[2]>>), <<>>) }   \* slot value form
       [] o = "reset" -> { Ok(Put(<<>>), <<>>) }
       [] o = "dctor" -> { Ok(Put(<<>>), <<>>) }
       [] o \in {"copyctor", "copy"} -> { Ok(Put(st.s[g]), <<>>) }
       [] o \in {"movector", "move"} -> IF a[1] = a[2] THEN { Ok(st, <<>>) } ELSE { Ok(q, <<>>) : q \in Moved }
       [] o = "swap" -> { Ok([st EXCEPT !.s = [st.s EXCEPT ![h] = st.s[g], ![g] = c]], <<>>) }
       [] o = "assignown" -> IF c = <<>> THEN { Exc(st) } ELSE { Ok(st, <<>>) }  \* assign the contained value to its own optional
       [] o = "assignother" -> \* assign the value contained in another one
            IF st.s[g] = <<>> THEN { Exc(st) } ELSE { Ok(Put(st.s[g]), <<>>) }
       [] o = "get" -> IF c = <<>> THEN { Exc(st) } ELSE { Ok(st, <<c[1]>>) }   \* slot form
       [] o = "mutate" -> IF c = <<>> THEN { Exc(st) } ELSE { Ok(Put(<<a[2]>>), <<>>) }
       [] o = "bool" -> { Ok(st, <<B(c # <<>>)>>) }
       [] OTHER -> {}
OAccept(st, e) == StdAccept(OOutcomes(st, e.o, e.a), e, OProj)
OTInit(t) == OInit(t.w)
=============================================================================
