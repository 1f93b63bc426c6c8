------------------------------ MODULE UStrSpec ------------------------------
(* The Unicode string.  State: two texts, each valid UTF-8 without zero     *)
(* bytes.  The projection shows the bytes, <<size, C length, empty?>>, the  *)
(* code points with their byte offsets as forward iteration delivers them,  *)
(* and the code points as reverse iteration delivers them.                  *)
EXTENDS SeqCommon, Utf8, SequencesExt

UInit == << <<>>, <<>> >>
HasNul(t) == \E i \in 1..Len(t) : t[i] = 0
UpTo0(t) == LET z == {i \in 1..Len(t) : t[i] = 0}
            IN IF z = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
Good(t) == ~HasNul(t) /\ Valid(t)
One(t) == LET s == Starts(t) n == Len(s)
          IN << t, <<Len(t), Len(t), B(t = <<>>)>>,
                [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN s[(i + 1) \div 2] ELSE CpAt(t, s[i \div 2])],
                [i \in 1..n |-> CpAt(t, s[n + 1 - i])] >>
UProj(s) == << One(s[1]), One(s[2]) >>

UOutcomes(s, o, a) ==
  LET h == a[1] + 1
      c == s[h]
      n == Len(c)
      st == Starts(c)
      m == Len(st)
      Pos(k) == IF k = m THEN n ELSE st[k + 1]     \* byte offset of the k-th code point
      \* Indices are taken modulo, so every one of them is meaningful.
      I(k) == k % (m + 1)
      J(i, k) == i + (k % (m - i + 1))
      Put(v) == [s EXCEPT ![h] = v]
      Piece(i, j) == SubSeq(c, Pos(i) + 1, Pos(j))
      d == s[3 - h]
  IN CASE o \in {"ctorn", "ctorb", "ctorv", "setv"} -> IF Good(a[2]) THEN { Ok(Put(a[2]), <<>>) } ELSE { Exc(s) }
       [] o \in {"ctorz", "ctorvz"} -> LET z == UpTo0(a[2]) IN IF Good(z) THEN { Ok(Put(z), <<>>) } ELSE { Exc(s) }
       [] o = "setself" -> LET i == I(a[2]) IN { Ok(Put(Piece(i, J(i, a[3]))), <<>>) }
       [] o = "pluss" -> { Ok(Put(c \o s[a[2] + 1]), <<>>) }
       [] o = "cp" -> IF Scalar(a[2]) /\ a[2] # 0 THEN { Ok(Put(c \o Encode(a[2])), <<>>) } ELSE { Exc(s) }
       [] o = "ins" -> IF Good(a[3]) THEN { Ok(Put(InsertSeq(c, Pos(I(a[2])), a[3])), <<>>) } ELSE { Exc(s) }
       [] o = "insself" -> LET i == I(a[3]) IN { Ok(Put(InsertSeq(c, Pos(I(a[2])), Piece(i, J(i, a[4])))), <<>>) }
       [] o = "rem" -> LET i == I(a[2]) j == J(i, a[3]) IN { Ok(Put(CutSeq(c, Pos(i), Pos(j))), <<>>) }
       [] o = "remother" -> { Exc(s) }
       [] o = "popf" -> { Ok(Put(IF m = 0 THEN c ELSE SubSeq(c, Pos(1) + 1, n)), <<>>) }
       [] o = "popb" -> { Ok(Put(IF m = 0 THEN c ELSE SubSeq(c, 1, Pos(m - 1))), <<>>) }
       [] o = "substr" ->
            IF InR(a[2], n + 1)
            THEN LET t == SubSeq(c, a[2] + 1, IF a[3] < 0 \/ a[3] > n - a[2] THEN n ELSE a[2] + a[3])
                 IN IF ~Valid(t) THEN { Exc(s) } ELSE IF a[2] = n THEN { Exc(s), Ok(s, <<>>) } ELSE { Ok(s, t) }
            ELSE { Exc(s) }
       [] o \in {"copy", "copyctor"} -> { Ok(Put(s[a[2] + 1]), <<>>) }
       [] o = "move" -> IF a[2] = a[1] THEN { Ok(s, <<>>) }
                        ELSE { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = <<>>], <<>>) }
       [] o = "movector" -> { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = <<>>], <<>>) }
       [] o = "reserve" -> { Ok(s, <<>>) }
       [] o = "cmp" -> LET k == LexCmp(c, d) IN { Ok(s, << B(c = d), k, B(c = d), B(c = d) >>) }
       [] o = "eqz" -> LET z == UpTo0(a[2]) IN { Ok(s, << B(c = z), B(c = z) >>) }
       \* An iterator walk: 1, 3 step forward (pre/post increment), 2 steps back; steps off the
       \* ends are not taken.  Each step reports the offset and the code point (-1 at the end).
       [] o = "walk" ->
            LET Mv(q, w) == IF w \in {1, 3} THEN (IF q = m THEN q ELSE q + 1) ELSE (IF q = 0 THEN q ELSE q - 1)
                At(i) == FoldLeft(Mv, 0, SubSeq(a[2], 1, i))
            IN { Ok(s, [i \in 1..(2 * Len(a[2])) |->
                          LET q == At((i + 1) \div 2)
                          IN IF i % 2 = 1 THEN Pos(q) ELSE IF q = m THEN -1 ELSE CpAt(c, Pos(q))]) }
       [] o = "cut" -> LET i == I(a[2]) j == I(a[3]) IN IF i <= j THEN { Ok(s, Piece(i, j)) } ELSE { Exc(s) }
       [] o = "has" ->    \* own view contained; view of the other string not; overlap of two own views
            LET i == I(a[2]) j == J(i, a[3]) k == I(a[4]) q == J(k, a[5])
            IN { Ok(s, << 1, 0, B(i < j), B(\E x \in (i + 1)..j : x \in (k + 1)..q), B(Piece(i, j) = Piece(k, q)) >>) }
       [] o = "exc" -> { Ok(s, [i \in DOMAIN UpTo0(a[2]) |-> IF a[2][i] > 127 THEN 63 ELSE a[2][i]]) }
       [] OTHER -> {}

UAccept(s, e) == StdAccept(UOutcomes(s, e.o, e.a), e, UProj)
UTInit(t) == UInit
UInvariant(s) == \A h \in 1..2 : Good(s[h]) /\ EncodeAll(Decode(s[h])) = s[h]
=============================================================================
