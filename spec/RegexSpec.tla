------------------------------ MODULE RegexSpec ------------------------------
(* Searching a regular expression, with Perl's priorities: a pattern maps a *)
(* position (and what the groups captured so far) to the sequence of all    *)
(* ways to go on, the preferred one first.                                  *)
(* Patterns come as prefix notation:                                        *)
(*  0 empty | 1 c | 2 any but newline | 3 A B sequence | 4 A B alternatives *)
(*  5/6/7 A greedy * + ? | 8/9/10 A lazy | 11 A group | 13 ^ | 14 $         *)
(*  15 n c.. one of | 16 n c.. none of | 17/18 m n A greedy/lazy m to n     *)
(*  (n = -1 no limit) | 19/20 A lookahead, negative | 21 A atomic           *)
(*  22 k back reference | 23 word boundary                                  *)
EXTENDS SeqCommon, Utf8
None == <<>>
RECURSIVE ParseAt(_, _)
\* [n: tree, e: position after it]
ParseAt(t, i) ==
  LET c == t[i]
  IN CASE c \in {0, 2, 13, 14, 23} -> [n |-> <<c>>, e |-> i + 1]
       [] c \in {1, 22} -> [n |-> <<c, t[i + 1]>>, e |-> i + 2]
       [] c \in {3, 4} -> LET a == ParseAt(t, i + 1) b == ParseAt(t, a.e) IN [n |-> <<c, a.n, b.n>>, e |-> b.e]
       [] c \in 5..10 \/ c \in 19..21 -> LET a == ParseAt(t, i + 1) IN [n |-> <<c, a.n>>, e |-> a.e]
       [] c = 11 -> LET a == ParseAt(t, i + 1) IN [n |-> <<c, a.n, Cardinality({ j \in 1..i : t[j] = 11 })>>, e |-> a.e]
       [] c \in {15, 16} -> [n |-> <<c, SubSeq(t, i + 2, i + 1 + t[i + 1])>>, e |-> i + 2 + t[i + 1]]
       [] c \in {17, 18} -> LET a == ParseAt(t, i + 3) IN [n |-> <<c, a.n, t[i + 1], t[i + 2]>>, e |-> a.e]
Tree(t) == ParseAt(t, 1).n
Groups(t) == Cardinality({ j \in DOMAIN t : t[j] = 11 })
\* ---- the pattern as text
Num(k) == IF k < 10 THEN <<48 + k>> ELSE <<48 + (k \div 10), 48 + (k % 10)>>
Alnum(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
Char(c) == IF c < 128 /\ ~Alnum(c) THEN (IF c = 10 THEN <<92, 110>> ELSE <<92, c>>) ELSE Encode(c)
RECURSIVE Render(_), Chars(_)
Chars(cs) == IF cs = <<>> THEN <<>> ELSE Char(cs[1]) \o Chars(Tail(cs))
Wrap(s) == <<40, 63, 58>> \o s \o <<41>>
Single(n) == n[1] \in {1, 2, 11, 15, 16, 22}
Lazy(c, s) == IF c \in {8, 9, 10, 18} THEN Append(s, 63) ELSE s
Render(n) ==
  LET c == n[1]
      Q(a) == IF Single(a) THEN Render(a) ELSE Wrap(Render(a))
      S(a) == IF a[1] = 4 THEN Wrap(Render(a)) ELSE Render(a)
  IN CASE c = 0 -> <<>>
       [] c = 1 -> Char(n[2])
       [] c = 2 -> <<46>>
       [] c = 3 -> S(n[2]) \o S(n[3])
       [] c = 4 -> Render(n[2]) \o <<124>> \o Render(n[3])
       [] c \in {5, 8} -> Lazy(c, Q(n[2]) \o <<42>>)
       [] c \in {6, 9} -> Lazy(c, Q(n[2]) \o <<43>>)
       [] c \in {7, 10} -> Lazy(c, Q(n[2]) \o <<63>>)
       [] c = 11 -> <<40>> \o Render(n[2]) \o <<41>>
       [] c = 13 -> <<94>>
       [] c = 14 -> <<36>>
       [] c = 15 -> <<91>> \o Chars(n[2]) \o <<93>>
       [] c = 16 -> <<91, 94>> \o Chars(n[2]) \o <<93>>
       [] c \in {17, 18} -> Lazy(c, Q(n[2]) \o <<123>> \o Num(n[3]) \o (IF n[4] = n[3] THEN <<>> ELSE <<44>> \o (IF n[4] = -1 THEN <<>> ELSE Num(n[4]))) \o <<125>>)
       [] c = 19 -> <<40, 63, 61>> \o Render(n[2]) \o <<41>>
       [] c = 20 -> <<40, 63, 33>> \o Render(n[2]) \o <<41>>
       [] c = 21 -> <<40, 63, 62>> \o Render(n[2]) \o <<41>>
       [] c = 22 -> <<92, 103, 123>> \o Num(n[2]) \o <<125>>
       [] c = 23 -> <<92, 98>>
\* ---- matching.  A way: [p: position 0..Len(s), c: group -> None or <<from, to>>]
Word(s, p) == p \in DOMAIN s /\ (Alnum(s[p]) \/ s[p] = 95)
RECURSIVE Uniq(_)
Uniq(w) == IF Len(w) < 2 THEN w ELSE <<w[1]>> \o Uniq(SelectSeq(Tail(w), LAMBDA x : x # w[1]))
RECURSIVE Ways(_, _, _), Each(_, _, _, _), Rep(_, _, _), LRep(_, _, _), Opts(_, _, _, _), Times(_, _, _, _), EachRep(_, _, _, _, _), EachOpt(_, _, _, _, _)
\* For all ways of ws in order, the ways of n.
Each(n, s, ws, k) == IF k > Len(ws) THEN <<>> ELSE Ways(n, s, ws[k]) \o Each(n, s, ws, k + 1)
\* One or more; an iteration that matched nothing is the last one.
EachRep(n, s, at, ws, lazy) ==
  IF ws = <<>> THEN <<>>
  ELSE LET w == ws[1]
       IN (IF w.p = at THEN <<w>> ELSE IF lazy THEN <<w>> \o LRep(n, s, w) ELSE Append(Rep(n, s, w), w)) \o EachRep(n, s, at, Tail(ws), lazy)
Rep(n, s, w) == Uniq(EachRep(n, s, w.p, Ways(n, s, w), FALSE))
LRep(n, s, w) == Uniq(EachRep(n, s, w.p, Ways(n, s, w), TRUE))
Times(n, s, ws, k) == IF k = 0 THEN ws ELSE Times(n, s, Uniq(Each(n, s, ws, 1)), k - 1)
\* Up to k more.
EachOpt(n, s, ws, k, lazy) == IF ws = <<>> THEN <<>> ELSE Opts(n, s, <<ws[1], lazy>>, k) \o EachOpt(n, s, Tail(ws), k, lazy)
Opts(n, s, wl, k) ==
  LET w == wl[1] lazy == wl[2]
  IN IF k = 0 THEN <<w>>
     ELSE LET more == EachOpt(n, s, Ways(n, s, w), k - 1, lazy)
          IN Uniq(IF lazy THEN <<w>> \o more ELSE Append(more, w))
EachPlus(n, s, ws, lazy) ==
  LET RECURSIVE Go(_)
      Go(k) == IF k > Len(ws) THEN <<>> ELSE (IF lazy THEN LRep(n, s, ws[k]) ELSE Rep(n, s, ws[k])) \o Go(k + 1)
  IN Uniq(Go(1))
Step1(s, w, ok(_)) == IF w.p < Len(s) /\ ok(s[w.p + 1]) THEN << [w EXCEPT !.p = @ + 1] >> ELSE <<>>
IsIn(c, cs) == \E i \in DOMAIN cs : cs[i] = c
Ways(n, s, w) ==
  LET c == n[1]
  IN CASE c = 0 -> <<w>>
       [] c = 1 -> Step1(s, w, LAMBDA x : x = n[2])
       [] c = 2 -> Step1(s, w, LAMBDA x : x # 10)
       [] c = 15 -> Step1(s, w, LAMBDA x : IsIn(x, n[2]))
       [] c = 16 -> Step1(s, w, LAMBDA x : ~IsIn(x, n[2]))
       [] c = 3 -> Uniq(Each(n[3], s, Ways(n[2], s, w), 1))
       [] c = 4 -> Uniq(Ways(n[2], s, w) \o Ways(n[3], s, w))
       [] c = 5 -> Uniq(Append(Rep(n[2], s, w), w))
       [] c = 6 -> Rep(n[2], s, w)
       [] c = 7 -> Uniq(Append(Ways(n[2], s, w), w))
       [] c = 8 -> Uniq(<<w>> \o LRep(n[2], s, w))
       [] c = 9 -> LRep(n[2], s, w)
       [] c = 10 -> Uniq(<<w>> \o Ways(n[2], s, w))
       [] c = 11 -> LET ws == Ways(n[2], s, w) IN [k \in DOMAIN ws |-> [ws[k] EXCEPT !.c[n[3]] = <<w.p, ws[k].p>>]]
       [] c = 13 -> IF w.p = 0 THEN <<w>> ELSE <<>>
       [] c = 14 -> IF w.p = Len(s) \/ (w.p = Len(s) - 1 /\ s[Len(s)] = 10) THEN <<w>> ELSE <<>>
       [] c \in {17, 18} ->
            IF n[4] = -1
            THEN (IF n[3] = 0 THEN Ways(<<IF c = 17 THEN 5 ELSE 8, n[2]>>, s, w) ELSE EachPlus(n[2], s, Times(n[2], s, <<w>>, n[3] - 1), c = 18))
            ELSE Uniq(EachOpt(n[2], s, Times(n[2], s, <<w>>, n[3]), n[4] - n[3], c = 18))
       [] c = 19 -> LET ws == Ways(n[2], s, w) IN IF ws = <<>> THEN <<>> ELSE << [ws[1] EXCEPT !.p = w.p] >>
       [] c = 20 -> IF Ways(n[2], s, w) = <<>> THEN <<w>> ELSE <<>>
       [] c = 21 -> LET ws == Ways(n[2], s, w) IN IF ws = <<>> THEN <<>> ELSE << ws[1] >>
       [] c = 22 -> LET g == w.c[n[2]]
                    IN IF g = None THEN <<>>
                       ELSE LET l == g[2] - g[1]
                            IN IF w.p + l <= Len(s) /\ SubSeq(s, w.p + 1, w.p + l) = SubSeq(s, g[1] + 1, g[2]) THEN << [w EXCEPT !.p = @ + l] >> ELSE <<>>
       [] c = 23 -> IF Word(s, w.p) # Word(s, w.p + 1) THEN <<w>> ELSE <<>>
\* The leftmost position with a way, and its preferred way: None or <<from, way>>.
Search(t, s) ==
  LET n == Tree(t)
      start(p) == [p |-> p, c |-> [g \in 1..Groups(t) |-> None]]
      RECURSIVE From(_)
      From(p) == IF p > Len(s) THEN None
                 ELSE LET ws == Ways(n, s, start(p)) IN IF ws = <<>> THEN From(p + 1) ELSE <<p, ws[1]>>
  IN From(0)
\* What a search answers: for the whole and every group, where its text is in the bytes of the subject
\* (<<from, length>>, <<>> if it took no part).
Byte(offs, len, p) == IF p + 1 > Len(offs) THEN len ELSE offs[p + 1]
Answer(t, bytes) ==
  LET cps == Decode(bytes)
      offs == Starts(bytes)
      m == Search(t, cps)
      Piece(g) == IF g = None THEN <<>> ELSE LET a == Byte(offs, Len(bytes), g[1]) IN <<a, Byte(offs, Len(bytes), g[2]) - a>>
  IN IF m = None THEN <<>> ELSE <<Piece(<<m[1], m[2].p>>)>> \o [g \in 1..Groups(t) |-> Piece(m[2].c[g])]
RgInit == <<>>
RgTInit(t) == RgInit
RgAccept(st, e) ==
  LET Same == { [st |-> st, kf |-> ""] }
  IN CASE e.o = "search" -> \* pattern text, pattern, subject, form
            IF e.a[1] # Render(Tree(e.a[2])) THEN {}
            ELSE LET w == Answer(e.a[2], e.a[3])
                 IN IF w = <<>> THEN (IF e.x = 1 THEN Same ELSE {})
                    ELSE IF e.x = 0 /\ e.r = <<Len(w) - 1>> \o w THEN Same ELSE {}
       [] e.o = "bad" -> IF e.x = 1 THEN Same ELSE {}
       [] OTHER -> {}
=============================================================================
