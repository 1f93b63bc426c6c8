------------------------------ MODULE HashFnMC -------------------------------
(* Feeding is independent of how the bytes are cut into pieces, and single  *)
(* byte texts never collide.                                                *)
EXTENDS HashFnSpec
CONSTANTS MaxLen, Alphabet
VARIABLES s, h
MInit == s = <<>> /\ h = Zero64
MNext == Len(s) < MaxLen /\ \E b \in Alphabet : s' = Append(s, b) /\ h' = Feed1(h, b)
Pieces == /\ h = HashOf(s)
          /\ \A k \in 0..Len(s) : FeedFrom(HashOf(SubSeq(s, 1, k)), SubSeq(s, k + 1, Len(s))) = h
          /\ \A i \in 1..4 : h[i] \in 0..65535
=============================================================================
