------------------------------- MODULE NatSpec ------------------------------
(* Natural order: digit runs compare by numeric value (and come before any  *)
(* other byte), other bytes by unsigned value, a proper prefix comes first. *)
(* Key(t) is a flat, prefix-free coding of the tokens of t, so the order is *)
(* the lexicographic order of keys.                                         *)
EXTENDS SeqCommon, SequencesExt

Digit(c) == c \in 48..57
RunEnd(t, i) == CHOOSE k \in i..Len(t) : (\A j \in i..k : Digit(t[j])) /\ (k = Len(t) \/ ~Digit(t[k + 1]))
NoZeros(d) == LET nz == {i \in DOMAIN d : d[i] # 48}
              IN IF nz = {} THEN <<>> ELSE SubSeq(d, CHOOSE i \in nz : \A j \in nz : i <= j, Len(d))
Token(t, i) ==
  IF ~Digit(t[i]) THEN <<1, t[i]>>
  ELSE IF i > 1 /\ Digit(t[i - 1]) THEN <<>>
  ELSE LET d == NoZeros(SubSeq(t, i, RunEnd(t, i))) IN <<0, Len(d)>> \o d
Key(t) == FlattenSeq([i \in DOMAIN t |-> Token(t, i)])
NatCmp(t, u) == LexCmp(Key(t), Key(u))
Canonical(t) == \A i \in 1..(Len(t) - 1) : (t[i] = 48 /\ Digit(t[i + 1])) => (i > 1 /\ Digit(t[i - 1]))

NOutcomes(st, o, a) == CASE o = "nat" -> LET V == SubSeq(a[1], a[2] + 1, a[3]) IN { Ok(st, << NatCmp(V, a[4]), NatCmp(a[4], V) >>) }
                         [] OTHER -> {}
NoProj(s) == <<>>
NAccept(s, e) == StdAccept(NOutcomes(s, e.o, e.a), e, NoProj)
NTInit(t) == <<>>
=============================================================================
