------------------------------- MODULE GlobSpec ------------------------------
(* Globbing a directory tree.                                               *)
(* State: the entries of the tree, <<components, kind>> (1 file, 2          *)
(* directory, 3 link); a parent of an entry is a directory.                 *)
EXTENDS PathSpec
Star == 42
Qm == 63
\* Does the name match the pattern?  A leading dot only matches a dot.
RECURSIVE Wild(_, _)
Wild(p, n) == IF p = <<>> THEN n = <<>>
              ELSE IF p[1] = Star THEN \E k \in 0..Len(n) : Wild(Tail(p), SubSeq(n, k + 1, Len(n)))
              ELSE n # <<>> /\ p[1] \in {Qm, n[1]} /\ Wild(Tail(p), Tail(n))
Dotted(n) == n # <<>> /\ n[1] = Dot
NameMatch(p, n) == Wild(p, n) /\ (Dotted(n) => Dotted(p))
SS == <<Star, Star>>
RECURSIVE PathMatch(_, _)
PathMatch(ps, cs) ==
  IF ps = <<>> THEN cs = <<>>
  ELSE IF ps[1] = SS THEN PathMatch(Tail(ps), cs) \/ (cs # <<>> /\ ~Dotted(cs[1]) /\ PathMatch(ps, Tail(cs)))
  ELSE cs # <<>> /\ NameMatch(ps[1], cs[1]) /\ PathMatch(Tail(ps), Tail(cs))
\* The components of a text.
Parts(t) == LET c == Comps(t)
                RECURSIVE Go(_, _)
                Go(i, cur) == IF i > Len(c) THEN <<>> ELSE IF c[i] = 0 THEN <<cur>> \o Go(i + 1, <<>>) ELSE Go(i + 1, Append(cur, c[i]))
            IN Go(1, <<>>)
RECURSIVE Text(_)
Text(cs) == IF cs = <<>> THEN <<>> ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o <<Slash>> \o Text(Tail(cs))
\* A tree comes as text: kind, path, 0, kind, path, 0, ...
TreeOf(t) ==
  LET RECURSIVE Go(_, _, _)
      Go(i, k, cur) == IF i > Len(t) THEN {} ELSE IF k = 0 THEN Go(i + 1, t[i], <<>>)
                       ELSE IF t[i] = 0 THEN { <<Parts(cur), k>> } \cup Go(i + 1, 0, <<>>) ELSE Go(i + 1, k, Append(cur, t[i]))
  IN Go(1, 0, <<>>)
Prefixed(cs, b) == Len(cs) > Len(b) /\ SubSeq(cs, 1, Len(b)) = b
Under(tree, b) == { SubSeq(e[1], Len(b) + 1, Len(e[1])) : e \in { x \in tree : Prefixed(x[1], b) } }
Base(root) == SelectSeq(Parts(root), LAMBDA c : c # <<Dot>>)
Found(tree, root, pat) == { JoinPath(Norm(root), Text(cs)) : cs \in { x \in Under(tree, Base(root)) : PathMatch(Parts(pat), x) } }
Pairs(p) == \E i \in 1..(Len(p) - 1) : p[i] = Star /\ p[i + 1] = Star
\* Patterns whose meaning is not settled: none at all, several double stars or one within a name.
Odd(pat) == LET ps == Parts(pat) IN ps = <<>> \/ Cardinality({ i \in DOMAIN ps : ps[i] = SS }) > 1 \/ \E i \in DOMAIN ps : ps[i] # SS /\ Pairs(ps[i])
Open(pat) == LET ps == Parts(pat) IN ps = <<>> \/ ps[Len(ps)] = SS
GlAccept(tree, e) ==
  LET Same == { [st |-> tree, kf |-> ""] }
  IN CASE e.o = "tree" -> IF e.x = 0 THEN { [st |-> tree \cup TreeOf(e.a[1]), kf |-> ""] } ELSE {}
       [] e.o = "glob" -> \* root, pattern, form
            LET f == Found(tree, e.a[1], e.a[2])
            IN IF e.x = 1 THEN (IF Odd(e.a[2]) \/ Open(e.a[2]) THEN Same ELSE {})
               ELSE IF e.x # 0 THEN {}
               ELSE IF Open(e.a[2]) THEN Same
               ELSE IF Len(e.r) = Cardinality(f) /\ { e.r[i] : i \in DOMAIN e.r } = f THEN Same ELSE {}
       [] OTHER -> {}
GlOutcomes(s, o, a) == { Ok(IF o = "tree" THEN s \cup TreeOf(a[1]) ELSE s, <<>>) }
GlInit == {}
GlTInit(t) == GlInit
=============================================================================
