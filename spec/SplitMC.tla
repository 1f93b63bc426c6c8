------------------------------- MODULE SplitMC ------------------------------
(* Splitting and joining are mutually consistent.                           *)
EXTENDS SplitSpec
CONSTANTS MaxLen
VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in {32, 10, 97, 44} : t' = Append(t, c)
Comma(c) == c = 44
Clean == t = <<>> \/ (t[1] # 44 /\ t[Len(t)] # 44 /\ \A i \in 1..(Len(t) - 1) : ~(t[i] = 44 /\ t[i + 1] = 44))
Inv == LET p == Pieces(t, Comma) IN
       /\ \A k \in DOMAIN p : p[k] # <<>> /\ \A i \in DOMAIN p[k] : p[k][i] # 44
       /\ FlattenSeq(p) = SelectSeq(t, LAMBDA c : c # 44)
       /\ Clean => JoinP(<<44>>, p) = t
       /\ Pieces(JoinP(<<44>>, p), Comma) = p
       /\ Pieces(t, IsBlank) = Pieces(Strip(t), IsBlank)
       /\ Strip(Strip(t)) = Strip(t)
       /\ \E i, j \in 0..Len(t) : i <= j /\ Strip(t) = SubSeq(t, i + 1, j)
            /\ (\A k \in 1..i : IsBlank(t[k])) /\ (\A k \in (j + 1)..Len(t) : IsBlank(t[k]))
            /\ (i < j => ~IsBlank(t[i + 1]) /\ ~IsBlank(t[j]))
Spec == Init /\ [][Next]_t
=============================================================================
