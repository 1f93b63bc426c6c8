----------------------------- MODULE VariantSpec -----------------------------
(* Three tagged unions over N alternatives (numbered 0..N-1).  A slot is    *)
(* <<k, v>>: the alternative stored last and its value; v = -1 is the value *)
(* of a moved-from object, which may also have kept its old one.            *)
(* Projection of a slot: <<index, value, number of alternatives that        *)
(* contains<>() claims, number that get_if<>() yields>>.                    *)
EXTENDS SeqCommon
VPoison == 13   \* copying this value throws in the alternative that can throw (world 0, alternative 3)
VInit(n, w) == [n |-> n, w |-> w, s |-> << <<0, 0>>, <<0, 0>>, <<0, 0>> >>]
VProj(st) == [h \in 1..3 |-> <<st.s[h][1], st.s[h][2], 1, 1>>]
VThrows(st, kv) == st.w = 0 /\ kv[1] = 3 /\ kv[2] = VPoison
VOutcomes(st, o, a) ==
  LET h == a[1] + 1
      c == st.s[h]
      Put(v) == [st EXCEPT !.s[h] = v]
      \* the slots after s[h] took over s[g]'s value
      From(g) == { [st EXCEPT !.s = [st.s EXCEPT ![h] = st.s[g], ![g] = <<st.s[g][1], w>>]] : w \in {st.s[g][2], -1} }
  IN CASE o \in {"ctor", "set", "insert"} ->   \* slot alternative value form
            { Ok(Put(<<a[2], a[3]>>), <<>>) }
       [] o = "dctor" -> { Ok(Put(<<0, 0>>), <<>>) }
       [] o \in {"copyctor", "copy"} ->
            LET src == st.s[a[2] + 1]
            IN IF VThrows(st, src) /\ ~(o = "copy" /\ a[1] = a[2]) THEN { Exc(st) } ELSE { Ok(Put(src), <<>>) }
       [] o \in {"movector", "move"} ->
            IF a[1] = a[2] THEN { Ok(st, <<>>) } ELSE { Ok(q, <<>>) : q \in From(a[2] + 1) }
       [] o = "swap" -> { Ok([st EXCEPT !.s = [st.s EXCEPT ![h] = st.s[a[2] + 1], ![a[2] + 1] = c]], <<>>) }
       [] o = "insertself" ->  \* insert a copy of the own value
            IF VThrows(st, c) THEN { Exc(st) } ELSE { Ok(st, <<>>) }
       [] o = "setmoved" ->  \* store the moved-out value of another slot
            IF a[1] = a[2] THEN { Ok(Put(<<c[1], w>>), <<>>) : w \in {c[2]} }
            ELSE { Ok(q, <<>>) : q \in From(a[2] + 1) }
       [] o = "get" ->  \* slot alternative form
            IF c[1] = a[2] THEN { Ok(st, <<c[2]>>) } ELSE { Exc(st) }
       [] o = "getif" -> { Ok(st, IF c[1] = a[2] THEN <<1, c[2]>> ELSE <<0>>) }
       [] o = "contains" -> { Ok(st, <<B(c[1] = a[2])>>) }
       [] o = "mutate" -> IF c[1] = a[2] THEN { Ok(Put(<<c[1], a[3]>>), <<>>) } ELSE { Exc(st) }
       [] o = "eq" ->
            LET d == st.s[a[2] + 1]
            IN { Ok(st, <<b>>) : b \in IF a[1] # a[2] /\ c[1] = d[1] /\ -1 \in {c[2], d[2]} THEN {0, 1}
                                        ELSE {B(a[1] = a[2] \/ c = d)} }
       [] OTHER -> {}
VAccept(st, e) == StdAccept(VOutcomes(st, e.o, e.a), e, VProj)
VTInit(t) == VInit(CASE t.w = 0 -> 5 [] t.w = 1 -> 30 [] t.w = 2 -> 1 [] t.w = 3 -> 7 [] OTHER -> 3, t.w)
=============================================================================
