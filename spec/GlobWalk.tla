------------------------------ MODULE GlobWalk -------------------------------
(* The directory walk as a machine: a stack of directories being read, each *)
(* with the part of the pattern its entries have to match.  For every tree, *)
(* every pattern and every order of the entries the walk must deliver each  *)
(* match exactly once.                                                      *)
EXTENDS GlobSpec, TLC
CONSTANTS MaxP
A == <<97>>  H == <<46, 97>>  Bn == <<98>>
Universe == { <<A>>, <<H>>, <<A, A>>, <<A, H>>, <<A, Bn>>, <<H, A>>, <<A, A, A>>, <<A, H, A>> }
Closed(t) == \A c \in t : Len(c) = 1 \/ SubSeq(c, 1, Len(c) - 1) \in t
Segs == { SS, <<Star>>, A, <<46, Star>> }
VARIABLES tree, pat, stack, out, queue
vars == <<tree, pat, stack, out, queue>>
In(d) == { c \in tree : Len(c) = Len(d) + 1 /\ SubSeq(c, 1, Len(d)) = d }
IsDir(c) == \E d \in tree : Len(d) = Len(c) + 1 /\ SubSeq(d, 1, Len(c)) = c
Frame(d, k) == [part |-> k, dir |-> d, left |-> In(d)]
\* The directories below d that a double star may stand for.
Below(d) == { c \in tree : Len(c) > Len(d) /\ SubSeq(c, 1, Len(d)) = d /\ IsDir(c) /\ \A i \in (Len(d) + 1)..Len(c) : ~Dotted(c[i]) }
\* Enter d with part k: a stack of frames.
Enter(d, k) == IF pat[k] = SS
               THEN LET RECURSIVE Go(_)
                        Go(s) == IF s = {} THEN <<>> ELSE LET c == CHOOSE x \in s : TRUE IN <<Frame(c, k + 1)>> \o Go(s \ {c})
                    IN <<Frame(d, k + 1)>> \o Go(Below(d))
               ELSE <<Frame(d, k)>>
WInit == /\ tree \in { t \in SUBSET Universe : Closed(t) }
         /\ pat \in { p \in UNION { [1..k -> Segs] : k \in 1..MaxP } : p[Len(p)] # SS /\ Cardinality({ i \in DOMAIN p : p[i] = SS }) <= 1 }
         /\ queue = TRUE /\ stack = <<>> /\ out = <<>>
Start == queue /\ queue' = FALSE /\ stack' = Enter(<<>>, 1) /\ UNCHANGED <<tree, pat, out>>
Pop == stack # <<>> /\ stack[Len(stack)].left = {} /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<tree, pat, out, queue>>
Entry == /\ stack # <<>> /\ stack[Len(stack)].left # {}
         /\ LET t == stack[Len(stack)]
            IN \E c \in t.left :
                 LET rest == [stack EXCEPT ![Len(stack)].left = @ \ {c}]
                 IN IF ~NameMatch(pat[t.part], c[Len(c)]) THEN stack' = rest /\ UNCHANGED out
                    ELSE IF t.part = Len(pat) THEN stack' = rest /\ out' = Append(out, c)
                    ELSE stack' = (IF IsDir(c) THEN rest \o Enter(c, t.part + 1) ELSE rest) /\ UNCHANGED out
         /\ UNCHANGED <<tree, pat, queue>>
WNext == Start \/ Pop \/ Entry
WSpec == WInit /\ [][WNext]_vars /\ WF_vars(WNext)
NoDuplicates == \A i, j \in DOMAIN out : i # j => out[i] # out[j]
OnlyMatches == \A i \in DOMAIN out : PathMatch(pat, out[i])
Complete == ~queue /\ stack = <<>> => { out[i] : i \in DOMAIN out } = { c \in tree : PathMatch(pat, c) }
Terminates == <>(~queue /\ stack = <<>>)
\* Matching one name: the recursive definition says that the name can be cut into one piece per character
\* of the pattern.
Words(n, al) == UNION { [1..k -> al] : k \in 0..n }
ASSUME \A p \in Words(3, {97, Star, Qm}) : \A n \in Words(3, {97, 98}) :
         Wild(p, n) <=> \E f \in [0..Len(p) -> 0..Len(n)] :
            /\ f[0] = 0 /\ f[Len(p)] = Len(n)
            /\ \A i \in 1..Len(p) : f[i] >= f[i - 1] /\ (p[i] # Star => f[i] = f[i - 1] + 1 /\ p[i] \in {Qm, n[f[i]]})
=============================================================================
