------------------------------- MODULE PathSpec ------------------------------
(* Lexical path operations, and a flat directory with the queries and the   *)
(* renaming of its entries.                                                 *)
(* State: f[1..4], the entries named a, b, c, d: kind and content (0 no     *)
(* entry, 1 file, 2 directory, 3 dangling link, 4 fifo, 5 link to a file,   *)
(* 6 link to a directory, 7 socket).                                        *)
EXTENDS SeqCommon
Slash == 47
Dot == 46
LastPos(t, c) == IF \E i \in 1..Len(t) : t[i] = c THEN CHOOSE i \in 1..Len(t) : t[i] = c /\ (\A j \in (i + 1)..Len(t) : t[j] # c) ELSE 0
\* The text without trailing separators; the root stays.
Norm(t) ==
  LET k == { i \in 1..Len(t) : t[i] # Slash }
  IN IF k # {} THEN SubSeq(t, 1, CHOOSE i \in k : \A j \in k : j <= i) ELSE IF t = <<>> THEN t ELSE <<Slash>>
IsAbs(p) == p # <<>> /\ p[1] = Slash
JoinPath(p, q) == IF IsAbs(q) \/ p = <<>> THEN q ELSE IF p = <<Slash>> THEN Norm(p \o q) ELSE Norm(p \o <<Slash>> \o q)
Name(p) == SubSeq(p, LastPos(p, Slash) + 1, Len(p))
\* 0, or the position of the last dot of the file name.
DotPos(p) == LET k == LastPos(p, Dot) IN IF k > LastPos(p, Slash) THEN k ELSE 0
Hidden(p) == DotPos(p) # 0 /\ (DotPos(p) = LastPos(p, Slash) + 1 \/ Name(p) = <<Dot, Dot>>)
Exts(p) == { IF DotPos(p) = 0 THEN <<>> ELSE SubSeq(p, DotPos(p), Len(p)) } \cup (IF Hidden(p) THEN { <<>> } ELSE {})
Repls(p, e) == { IF DotPos(p) = 0 THEN p \o e ELSE SubSeq(p, 1, DotPos(p) - 1) \o e } \cup (IF Hidden(p) THEN { p \o e } ELSE {})
Comps(p) == \* the non-empty components, each with a 0 after it
  LET RECURSIVE Go(_, _)
      Go(i, cur) == IF i > Len(p) THEN (IF cur = <<>> THEN <<>> ELSE cur \o <<0>>)
                    ELSE IF p[i] = Slash THEN (IF cur = <<>> THEN <<>> ELSE cur \o <<0>>) \o Go(i + 1, <<>>)
                    ELSE Go(i + 1, Append(cur, p[i]))
  IN Go(1, <<>>)
NoEntry == [k |-> 0, c |-> <<>>]
PInit == [i \in 1..4 |-> NoEntry]
POutcomes(f, o, a) ==
  LET R(r) == { Ok(f, r) }
  IN CASE o = "text" -> LET p == Norm(a[1]) IN R(<<Len(p), B(p = <<>>), B(IsAbs(p))>> \o p)       \* text form
       [] o = "join" -> R(JoinPath(Norm(a[1]), Norm(a[2])))                                        \* left right form
       [] o = "ext" -> { Ok(f, r) : r \in Exts(Norm(a[1])) }
       [] o = "name" -> R(Name(Norm(a[1])))
       [] o = "split" -> R(Comps(Norm(a[1])))
       [] o = "repl" -> { Ok(f, r) : r \in Repls(Norm(a[1]), a[2]) }                               \* text extension form
       [] o = "mk" -> \* entry kind content
            IF f[a[1]].k # 0 THEN {} ELSE { Ok([f EXCEPT ![a[1]] = [k |-> a[2], c |-> IF a[2] \in {1, 5} THEN a[3] ELSE <<>>]], <<>>) }
       [] o = "rm" -> { Ok([f EXCEPT ![a[1]] = NoEntry], <<>>) }
       [] o = "query" -> \* entry variant: exists, is a file, is a directory
            LET k == f[a[1]].k IN R(<<B(k \in {1, 2, 4, 5, 6, 7}), B(k \in {1, 5}), B(k \in {2, 6})>>)
       [] o = "load" -> \* entry form: its bytes, if there are any
            LET k == f[a[1]].k IN IF k \in {1, 5} THEN R(<<1>> \o f[a[1]].c) ELSE R(<<0>>)
       [] o = "rename" -> \* from to
            LET s == f[a[1]] t == f[a[2]]
            IN IF s.k = 0 \/ t.k = 2 \/ (s.k = 2 /\ t.k # 0) THEN R(<<0>>)
               ELSE IF a[1] = a[2] THEN R(<<1>>) \cup (IF s.k = 6 THEN R(<<0>>) ELSE {})
               ELSE (IF t.k = 6 THEN R(<<0>>) ELSE {}) \cup { Ok([f EXCEPT ![a[1]] = NoEntry, ![a[2]] = s], <<1>>) }
       [] OTHER -> {}
\* The projection is what the operating system says about the four entries.
PProj(f) == [i \in 1..4 |-> f[i].k]
PAccept(s, e) == StdAccept(POutcomes(s, e.o, e.a), e, PProj)
PTInit(t) == PInit
=============================================================================
