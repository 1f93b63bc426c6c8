------------------------------ MODULE SplitSpec -----------------------------
(* Splitting yields the maximal runs without a separator, in order; joining *)
(* puts the separator between consecutive pieces; stripping removes exactly *)
(* the blanks at both ends.                                                 *)
EXTENDS SeqCommon, Utf8, SequencesExt

IsBlank(c) == c \in {32, 9, 10, 13}
Pieces(t, Sep(_)) ==
  LET Run(i) == ~Sep(t[i]) /\ (i = 1 \/ Sep(t[i - 1]))
      starts == SelectSeq([i \in DOMAIN t |-> i], Run)
      End(i) == CHOOSE k \in i..Len(t) : (\A j \in i..k : ~Sep(t[j])) /\ (k = Len(t) \/ Sep(t[k + 1]))
  IN [k \in DOMAIN starts |-> SubSeq(t, starts[k], End(starts[k]))]
\* The callback form ends after the piece at which the receiver asks to stop.
Stopped(ps, k) == IF k < 0 \/ k > Len(ps) THEN ps ELSE SubSeq(ps, 1, k)
JoinP(sep, ps) == FlattenSeq([k \in DOMAIN ps |-> IF k = 1 THEN ps[k] ELSE sep \o ps[k]])
Strip(t) ==
  LET keep == {i \in 1..Len(t) : ~IsBlank(t[i])}
  IN IF keep = {} THEN <<>>
     ELSE SubSeq(t, CHOOSE i \in keep : \A j \in keep : i <= j, CHOOSE i \in keep : \A j \in keep : i >= j)
\* Lists of texts travel as one list with a 0 after each text.
Unflat(f) ==
  LET z == SelectSeq([i \in DOMAIN f |-> i], LAMBDA i : f[i] = 0)
  IN [k \in DOMAIN z |-> SubSeq(f, IF k = 1 THEN 1 ELSE z[k - 1] + 1, z[k] - 1)]
U8(ps) == [k \in DOMAIN ps |-> EncodeAll(ps[k])]

POutcomes(st, o, a) ==
  LET t == a[1]
      R(r) == { Ok(st, r) }
      Win == IF a[3] > Len(t) \/ a[2] > a[3] THEN <<>> ELSE SubSeq(t, a[2] + 1, a[3])
  IN CASE o \in {"ws", "u8ws"} -> R(Pieces(t, IsBlank))
       [] o = "wsv" -> R(Stopped(Pieces(Win, IsBlank), a[4]))
       [] o = "u8cls" -> R(Pieces(Win, IsBlank))
       [] o = "wscb" -> R(Stopped(Pieces(t, IsBlank), a[2]))
       [] o = "by" -> R(Pieces(t, LAMBDA c : c = a[2]))
       [] o = "bycb" -> R(Stopped(Pieces(t, LAMBDA c : c = a[2]), a[3]))
       [] o = "u8by" -> R(U8(Stopped(Pieces(Decode(t), LAMBDA c : c = a[2]), a[3])))
       [] o = "strip" -> R(Strip(t))
       [] o = "join" -> R(JoinP(t, Unflat(a[2])))
       [] o = "rejoin" -> R(JoinP(<<a[2]>>, Pieces(t, LAMBDA c : c = a[2])))
       [] OTHER -> {}
NoProj(s) == <<>>
PAccept(s, e) == StdAccept(POutcomes(s, e.o, e.a), e, NoProj)
PTInit(t) == <<>>
=============================================================================
