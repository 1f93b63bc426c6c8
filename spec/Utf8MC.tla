------------------------------- MODULE Utf8MC -------------------------------
(* The acceptor accepts exactly the encodings of code point sequences: every*)
(* byte string over Alphabet up to length MaxLen is accepted iff decoding   *)
(* and re-encoding reproduces it with scalar values only.                   *)
EXTENDS Utf8, TLC
CONSTANTS Alphabet, MaxLen
VARIABLE w
Init == w = <<>>
Next == Len(w) < MaxLen /\ \E b \in Alphabet : w' = Append(w, b)
\* Splitting by leading bytes only (no validity assumed): greedy, by lead byte length.
LeadLen(b) == IF b < 128 THEN 1 ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4 ELSE 0
WellFormed(t) ==
  LET Go[k \in 0..Len(t)] ==
        IF k = Len(t) THEN TRUE
        ELSE LET n == LeadLen(t[k + 1]) IN
             /\ n > 0 /\ k + n <= Len(t)
             /\ \A j \in 1..(n - 1) : t[k + 1 + j] \in 128..191
             /\ LET cp == CpAt(t, k) IN Scalar(cp) /\ Encode(cp) = SubSeq(t, k + 1, k + n)
             /\ Go[k + n]
  IN Go[0]
Inv == /\ Valid(w) = WellFormed(w)
       /\ Valid(w) => EncodeAll(Decode(w)) = w
Spec == Init /\ [][Next]_w
=============================================================================
