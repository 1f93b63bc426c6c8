------------------------------ MODULE RegexSets ------------------------------
(* All patterns of a given number of nodes over a small alphabet, and what  *)
(* they match as sets (without priorities).                                 *)
EXTENDS RegexSpec
Atoms == { <<0>>, <<1, 97>>, <<1, 98>>, <<2>>, <<13>>, <<14>>, <<16, 1, 97>> }
Unary == { <<5>>, <<6>>, <<7>>, <<8>>, <<9>>, <<10>>, <<11>>, <<17, 0, 2>>, <<17, 2, 2>>, <<18, 1, -1>>, <<19>>, <<20>>, <<21>> }
RECURSIVE Pats(_)
Pats(k) == IF k = 1 THEN Atoms
           ELSE { u \o t : u \in Unary, t \in Pats(k - 1) } \cup
                UNION { { <<c>> \o a \o b : c \in {3, 4}, a \in Pats(j), b \in Pats(k - 1 - j) } : j \in 1..(k - 2) }
RECURSIVE Ends(_, _, _), Closure(_, _, _), Repeat(_, _, _, _)
Closure(n, s, ps) == LET q == ps \cup UNION { Ends(n, s, p) : p \in ps } IN IF q = ps THEN ps ELSE Closure(n, s, q)
Repeat(n, s, ps, k) == IF k = 0 THEN ps ELSE Repeat(n, s, UNION { Ends(n, s, p) : p \in ps }, k - 1)
Ends(n, s, p) ==
  LET c == n[1]
      At(ok(_)) == IF p < Len(s) /\ ok(s[p + 1]) THEN {p + 1} ELSE {}
      All(x) == UNION { Ends(n[3], s, q) : q \in x }
  IN CASE c = 0 -> {p}
       [] c = 1 -> At(LAMBDA x : x = n[2])
       [] c = 2 -> At(LAMBDA x : x # 10)
       [] c = 15 -> At(LAMBDA x : IsIn(x, n[2]))
       [] c = 16 -> At(LAMBDA x : ~IsIn(x, n[2]))
       [] c = 3 -> All(Ends(n[2], s, p))
       [] c = 4 -> Ends(n[2], s, p) \cup Ends(n[3], s, p)
       [] c \in {5, 8} -> Closure(n[2], s, {p})
       [] c \in {6, 9} -> Closure(n[2], s, Ends(n[2], s, p))
       [] c \in {7, 10} -> {p} \cup Ends(n[2], s, p)
       [] c = 11 -> Ends(n[2], s, p)
       [] c = 13 -> IF p = 0 THEN {p} ELSE {}
       [] c = 14 -> IF p = Len(s) \/ (p = Len(s) - 1 /\ s[Len(s)] = 10) THEN {p} ELSE {}
       [] c \in {17, 18} -> IF n[4] = -1 THEN Closure(n[2], s, Repeat(n[2], s, {p}, n[3]))
                            ELSE UNION { Repeat(n[2], s, {p}, k) : k \in n[3]..n[4] }
       [] c = 19 -> IF Ends(n[2], s, p) # {} THEN {p} ELSE {}
       [] c = 20 -> IF Ends(n[2], s, p) = {} THEN {p} ELSE {}
       [] OTHER -> {}
RECURSIVE Has(_, _), GroupNode(_, _)
Has(n, cs) == n[1] \in cs \/ (n[1] \in {3, 4} /\ (Has(n[2], cs) \/ Has(n[3], cs))) \/ (n[1] \in (5..11) \cup (17..21) /\ Has(n[2], cs))
GroupNode(n, g) == IF n[1] = 11 /\ n[3] = g THEN n
                   ELSE IF n[1] \in {3, 4} THEN LET a == GroupNode(n[2], g) IN IF a # None THEN a ELSE GroupNode(n[3], g)
                   ELSE IF n[1] \in (5..11) \cup (17..21) THEN GroupNode(n[2], g) ELSE None
=============================================================================
