-------------------------------- MODULE NatMC -------------------------------
(* The specified order is a total order: antisymmetric, transitive, and     *)
(* equality only between equal texts when no number has redundant zeros.    *)
EXTENDS NatSpec
CONSTANTS Alphabet, MaxLen
VARIABLE x
Texts == UNION { [1..k -> Alphabet] : k \in 0..MaxLen }
Init == x \in Texts \X Texts \X Texts
Next == UNCHANGED x
Inv == /\ NatCmp(x[1], x[2]) = -NatCmp(x[2], x[1])
       /\ (NatCmp(x[1], x[2]) <= 0 /\ NatCmp(x[2], x[3]) <= 0) => NatCmp(x[1], x[3]) <= 0
       /\ (NatCmp(x[1], x[2]) = 0 /\ NatCmp(x[2], x[3]) < 0) => NatCmp(x[1], x[3]) < 0
       /\ (NatCmp(x[1], x[2]) = 0 /\ Canonical(x[1]) /\ Canonical(x[2])) => x[1] = x[2]
Spec == Init /\ [][Next]_x
=============================================================================
