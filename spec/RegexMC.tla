------------------------------- MODULE RegexMC -------------------------------
(* The priorities do not change what is found: with and without them the    *)
(* same subjects match, at the same leftmost place, with groups inside the  *)
(* match that hold a text their pattern matches.                            *)
EXTENDS RegexSets
CONSTANTS Size, MaxLen
VARIABLES t, s
RInit == t \in UNION { Pats(k) : k \in 1..Size } /\ s = <<0>>
RNext == s = <<0>> /\ s' \in UNION { [1..k -> {97, 98, 10}] : k \in 0..MaxLen } /\ UNCHANGED t
Sound ==
  LET n == Tree(t) m == Search(t, s)
      Starting == { p \in 0..Len(s) : Ends(n, s, p) # {} }
  IN ~Has(n, {21, 22}) =>
       /\ (m = None) = (Starting = {})
       /\ m # None => (m[1] \in Starting /\ (\A p \in Starting : m[1] <= p) /\ m[2].p \in Ends(n, s, m[1]))
       /\ m # None => \A g \in 1..Groups(t) : LET c == m[2].c[g] IN
            c # None => 0 <= c[1] /\ c[1] <= c[2] /\ c[2] <= Len(s) /\ c[2] \in Ends(GroupNode(n, g), s, c[1])
\* The first way of a greedy repetition of one character takes all it can get, that of a lazy one as little.
Greedy == \A c \in {97, 98} : \A p \in 0..Len(s) :
            LET w == [p |-> p, c |-> <<>>]
                k == CHOOSE k \in 0..(Len(s) - p) : (\A j \in 1..k : s[p + j] = c) /\ (p + k = Len(s) \/ s[p + k + 1] # c)
            IN /\ Ways(<<5, <<1, c>> >>, s, w)[1].p = p + k
               /\ Ways(<<8, <<1, c>> >>, s, w)[1].p = p
               /\ Len(Ways(<<5, <<1, c>> >>, s, w)) = k + 1
=============================================================================
