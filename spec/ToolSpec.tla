------------------------------- MODULE ToolSpec ------------------------------
(* The programs that come with the library, as functions of their input.    *)
(* A run is one event; its result is the exit status and what was printed.  *)
(* State: the directory tree the file pattern program looks at.             *)
EXTENDS SplitSpec, Functions
GL == INSTANCE GlobSpec
AR == INSTANCE ArgSpec
NL == 10
Lines(t) == LET z == SelectSeq([i \in DOMAIN t |-> i], LAMBDA i : t[i] = NL)
            IN [k \in DOMAIN z |-> SubSeq(t, IF k = 1 THEN 1 ELSE z[k - 1] + 1, z[k] - 1)]
Whole(t) == t = <<>> \/ t[Len(t)] = NL   \* every line is ended
Times(ps, x) == Cardinality({ k \in DOMAIN ps : ps[k] = x })
SameBag(p, q) == Len(p) = Len(q) /\ \A k \in DOMAIN p : Times(p, p[k]) = Times(q, p[k])
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
NoFile == <<67, 111, 117, 108, 100, 32, 110, 111, 116, 32, 111, 112, 101, 110>>   \* Could not open
Begins(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Refused(e) == e.r[1] # 0
\* wordsort: the words of the file in order, one per line.
WordSort(t, out) ==
  LET l == Lines(out)
  IN /\ Whole(out)
     /\ SameBag(l, Pieces(t, IsBlank))
     /\ \A k \in 1..(Len(l) - 1) : LexCmp(l[k], l[k + 1]) <= 0
\* wordcount: each distinct word once with its number, the frequent first, then the long ones.
WordCount(t, out) ==
  LET l == Lines(out)
      ps == Pieces(t, IsBlank)
      w == { ps[k] : k \in DOMAIN ps }
      \* the word of a line "<number> <word>"
      Sp(x) == CHOOSE i \in DOMAIN x : x[i] = 32 /\ \A j \in 1..(i - 1) : x[j] # 32
      Word(x) == SubSeq(x, Sp(x) + 1, Len(x))
      N(x) == Times(ps, Word(x))
  IN /\ Whole(out)
     /\ \A k \in DOMAIN l : \E i \in DOMAIN l[k] : l[k][i] = 32
     /\ Len(l) = Cardinality(w)
     /\ { Word(l[k]) : k \in DOMAIN l } = w
     /\ \A k \in DOMAIN l : l[k] = Dec(N(l[k])) \o <<32>> \o Word(l[k])
     /\ \A k \in 1..(Len(l) - 1) : N(l[k]) > N(l[k + 1]) \/ (N(l[k]) = N(l[k + 1]) /\ Len(l[k]) >= Len(l[k + 1]))
\* The same for a file described by its distinct words and how often each occurs.
CountedWords(ws, ns, out) ==
  LET l == Lines(out)
      Line(i) == Dec(ns[i]) \o <<32>> \o ws[i]
      At(x) == CHOOSE i \in DOMAIN ws : Line(i) = x
  IN /\ Whole(out) /\ Len(l) = Len(ws)
     /\ { l[k] : k \in DOMAIN l } = { Line(i) : i \in DOMAIN ws }
     /\ \A k \in 1..(Len(l) - 1) : LET i == At(l[k]) j == At(l[k + 1])
                                    IN ns[i] > ns[j] \/ (ns[i] = ns[j] /\ Len(ws[i]) >= Len(ws[j]))
\* globber: a heading, an empty line and one match per line, in any order.
GlobHead == <<71, 108, 111, 98, 32, 109, 97, 116, 99, 104, 101, 115, 58>>
Globbed(tree, pat, out) ==
  LET l == Lines(out)
      f == GL!Found(tree, <<>>, pat)
      m == SubSeq(l, 3, Len(l))
  IN Whole(out) /\ Len(l) >= 2 /\ l[1] = GlobHead /\ l[2] = <<>> /\ Len(m) = Cardinality(f) /\ { m[k] : k \in DOMAIN m } = f
\* The option demonstration: what it declares and what it prints for the values.
Opt(n, sh, lg, ty, act, def, mn, mx) == [name |-> n, short |-> sh, long |-> lg, ty |-> ty, act |-> act, def |-> def, min |-> mn, max |-> mx]
Demo == [pos |-> FALSE, opts |-> <<
  Opt(<<102, 111, 111>>, 0, <<45, 45, 102, 111, 111>>, 0, 0, <<>>, <<>>, <<>>),
  Opt(<<98, 97, 114>>, 0, <<45, 45, 98, 97, 114>>, 0, 0, <<>>, <<>>, <<>>),
  Opt(<<115>>, 0, <<45, 45, 115, 105, 122, 101>>, 3, 0, <<>>, <<48>>, <<57>>),
  Opt(<<105>>, 73, <<45, 45, 105, 110, 99, 108, 117, 100, 101>>, 1, 3, <<1, 111, 110, 101, 0, 116, 119, 111, 0>>, <<>>, <<>>),
  Opt(<<118>>, 118, <<>>, 2, 1, <<2, 0>>, <<>>, <<>>) >>]
Undef == <<117, 110, 100, 101, 102>>
Shown(v) ==
  LET T(x) == IF x = <<>> THEN Undef ELSE Tail(x)
      inc == AR!Tokens(Tail(v[4]))
  IN <<70, 111, 111, 58, 32>> \o T(v[1]) \o <<NL>>
     \o <<66, 97, 114, 58, 32>> \o T(v[2]) \o <<NL>>
     \o <<83, 105, 122, 101, 58, 32>> \o (IF v[3] = <<>> THEN <<45, 49>> ELSE Tail(v[3])) \o <<NL>>
     \o <<73, 110, 99, 108, 117, 100, 101, 58, 32>> \o Dec(Len(inc)) \o <<32, 101, 110, 116, 114, 105, 101, 115, 32, NL>>
     \o FlattenSeq([k \in DOMAIN inc |-> <<32>> \o inc[k] \o <<NL>>])
     \o <<86, 101, 114, 98, 111, 115, 101, 58, 32>> \o (IF v[5] = <<2, 1>> THEN <<49>> ELSE <<48>>) \o <<NL>>
DemoAccepts(toks, e) ==
  \E q \in AR!Results(Demo, toks) :
    CASE q[1] = 0 -> e.r[1] = 0 /\ Tail(e.r) = Shown(Tail(q))
      [] q[1] = 1 -> Refused(e)
      [] OTHER -> e.r[1] = 0 /\ Len(e.r) > 1
\* The sorting programs check their own result against 0 .. n - 1.
Perm(s) == { s[k] : k \in DOMAIN s } = 0..(Len(s) - 1)

ToAccept(tree, e) ==
  LET If(c) == IF e.x = 0 /\ c THEN { [st |-> tree, kf |-> ""] } ELSE {}
      out == Tail(e.r)
  IN CASE e.o = "wordsort" -> If(IF e.a[1] = <<>> THEN (e.r = <<0>> \/ (Refused(e) /\ Begins(out, NoFile)))
                                 ELSE e.r[1] = 0 /\ WordSort(e.a[1], out))
       [] e.o = "wordcount" -> If(IF e.a[1] = <<>> THEN (e.r = <<0>> \/ (Refused(e) /\ Begins(out, NoFile)))
                                  ELSE IF ~Valid(e.a[1]) THEN Refused(e)
                                  ELSE e.r[1] = 0 /\ WordCount(e.a[1], out))
       [] e.o = "wordcountn" -> If(e.r[1] = 0 /\ CountedWords(e.a[1], e.a[2], out))   \* words, numbers, order
       [] e.o = "wordsn" -> If(e.r = <<0, e.a[2], e.a[2], 1>>)   \* which program, number of distinct words, order: status, lines, distinct lines, in order
       [] e.o = "missing" -> If(Refused(e) /\ Begins(out, NoFile))
       [] e.o = "sort" -> If(IF Perm(e.a[2]) THEN e.r[1] = 0 ELSE e.r[1] = 1)   \* which program, numbers
       [] e.o = "sortn" -> If(e.r[1] = 0)                                     \* which program, how many, seed: a permutation
       [] e.o = "args" -> If(DemoAccepts(AR!Tokens(e.a[1]), e))
       [] e.o = "tree" -> IF e.x = 0 THEN { [st |-> tree \cup GL!TreeOf(e.a[1]), kf |-> ""] } ELSE {}
       [] e.o = "globber" -> If(e.r[1] = 0 /\ (GL!Odd(e.a[1]) \/ GL!Open(e.a[1]) \/ Globbed(tree, e.a[1], out)))
       [] OTHER -> {}
ToTInit(t) == {}
=============================================================================
