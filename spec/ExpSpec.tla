------------------------------- MODULE ExpSpec -------------------------------
(* Three result-or-error objects.  A slot is <<kind, v>>: 0 neither (default*)
(* constructed or moved from), 1 value, 2 error.  Asking for the alternative*)
(* that is not there is refused: by an exception or by ending the process.  *)
EXTENDS SeqCommon
EInit == << <<0, 0>>, <<0, 0>>, <<0, 0>> >>
EProj(s) == [h \in 1..3 |-> s[h]]
Abort == 1006
ERefused(s) == { Exc(s), [st |-> s, x |-> 2, r |-> <<Abort>>] }
EOutcomes(s, o, a) ==
  LET h == a[1] + 1
      c == s[h]
      g == a[2] + 1
      Put(v) == [s EXCEPT ![h] = v]
      Take(keep) == { [s EXCEPT ![h] = s[g], ![g] = q] : q \in {<<0, 0>>} \cup (IF keep THEN {s[g], <<s[g][1], -1>>} ELSE {}) }
  IN CASE o \in {"val", "setval"} -> { Ok(Put(<<1, a[2]>>), <<>>) }      \* slot value form
       [] o \in {"err", "seterr"} -> { Ok(Put(<<2, a[2]>>), <<>>) }
       [] o = "unexp" -> { Ok(Put(<<2, a[2]>>), IF a[3] < 2 THEN <<>> ELSE <<a[2]>>) }   \* through an Unexpected, which can be asked too
       [] o = "dctor" -> { Ok(Put(<<0, 0>>), <<>>) }
       [] o \in {"movector", "move"} -> IF a[1] = a[2] THEN { Ok(s, <<>>) } ELSE { Ok(q, <<>>) : q \in Take(TRUE) }
       [] o = "value" -> IF c[1] = 1 THEN { Ok(s, <<c[2]>>) } ELSE ERefused(s)
       [] o = "error" -> IF c[1] = 2 THEN { Ok(s, <<c[2]>>) } ELSE ERefused(s)
       [] o = "mutate" -> IF c[1] = 1 THEN { Ok(Put(<<1, a[2]>>), <<>>) } ELSE ERefused(s)
       [] o = "bool" -> { Ok(s, <<B(c[1] = 1), B(c[1] = 1), B(c[1] = 2)>>) }
       [] OTHER -> {}
EAccept(s, e) ==
  { [st |-> q.st, kf |-> ""] : q \in { k \in EOutcomes(s, e.o, e.a) :
      k.x = e.x /\ (IF k.x = 1 THEN EProj(k.st) = e.p ELSE k.r = e.r /\ (k.x = 2 \/ EProj(k.st) = e.p)) } }
ETInit(t) == EInit
=============================================================================
