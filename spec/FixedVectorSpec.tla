-------------------------- MODULE FixedVectorSpec --------------------------
(* The fixed-capacity array.  State: the capacity and two array objects.    *)
EXTENDS SeqCommon

FCaps == <<1, 2, 3, 4, 5, 16, 300>>        \* by world
FProj(s) == s.v
FInit(cap) == [cap |-> cap, v |-> << <<>>, <<>> >>]

FOutcomes(s, o, a) ==
  LET h == a[1] + 1
      c == s.v[h]
      n == Len(c)
      full == n >= s.cap
      Put(w) == [s EXCEPT !.v[h] = w]
  IN CASE o \in {"push", "pushm", "emplace"} -> IF full THEN {Exc(s)} ELSE { Ok(Put(Append(c, a[2])), <<>>) }
       [] o \in {"trypush", "trypushm", "tryemplace"} ->
            IF full THEN { Ok(s, <<0>>) } ELSE { Ok(Put(Append(c, a[2])), <<1>>) }
       [] o \in {"pushself", "emplself"} ->
            IF ~InR(a[2], n) THEN { Ok(s, <<>>) } ELSE IF full THEN {Exc(s)}
            ELSE { Ok(Put(Append(c, c[a[2] + 1])), <<>>) }
       [] o = "insert" -> IF full \/ ~InR(a[2], n + 1) THEN {Exc(s)}
                          ELSE { Ok(Put(InsertAt(c, a[2], a[3])), <<>>) }
       [] o = "pop" -> { Ok(Put(IF n = 0 THEN c ELSE SubSeq(c, 1, n - 1)), <<>>) }
       [] o = "popfront" -> { Ok(Put(IF n = 0 THEN c ELSE SubSeq(c, 2, n)), <<>>) }
       [] o = "delete" -> IF InR(a[2], n) THEN { Ok(Put(RemoveAt(c, a[2])), <<>>) } ELSE {Exc(s)}
       [] o = "clear" -> { Ok(Put(<<>>), <<>>) }
       [] o = "fill" -> { Ok(Put(c \o [i \in 1..MinI(a[2], s.cap - n) |-> (i * 7 + a[3]) % 100]), <<>>) }
       \* The driver clears the source after a successful bulk move (its contents are unspecified).
       [] o = "moveappend" ->
            IF a[2] = a[1] \/ n + Len(s.v[a[2] + 1]) > s.cap THEN {Exc(s)}
            ELSE { Ok([s EXCEPT !.v[h] = c \o s.v[a[2] + 1], !.v[a[2] + 1] = <<>>], <<>>) }
       [] o = "move" -> IF a[2] = a[1] THEN { Ok(s, <<>>) }
                        ELSE { Ok([s EXCEPT !.v[h] = s.v[a[2] + 1], !.v[a[2] + 1] = <<>>], <<>>) }
       [] o = "movector" -> { Ok([s EXCEPT !.v[h] = s.v[a[2] + 1], !.v[a[2] + 1] = <<>>], <<>>) }
       [] o \in {"get", "cget"} -> IF InR(a[2], n) THEN { Ok(s, << c[a[2] + 1] >>) } ELSE { Exc(s) }
       [] o = "set" -> IF InR(a[2], n) THEN { Ok(Put([c EXCEPT ![a[2] + 1] = a[3]]), <<>>) } ELSE { Exc(s) }
       [] o = "front" -> IF n = 0 THEN { Exc(s) } ELSE { Ok(s, << c[1] >>) }
       [] o = "back" -> IF n = 0 THEN { Exc(s) } ELSE { Ok(s, << c[n] >>) }
       [] o = "size" -> { Ok(s, << n, B(n = 0), B(full), s.cap >>) }
       [] o \in {"iter", "span"} -> { Ok(s, c) }
       [] OTHER -> {}

FAccept(s, e) == StdAccept(FOutcomes(s, e.o, e.a), e, FProj)
FTInit(t) == FInit(FCaps[t.w + 1])
FInvariant(s) == \A h \in 1..2 : Len(s.v[h]) <= s.cap
=============================================================================
