------------------------------ MODULE GenBase ------------------------------
(* Generic behaviour generation / bounded model checking.  Every history of *)
(* Depth operations of the specification is a behaviour; each one is printed*)
(* (GEN line) and replayed into the real library.                           *)
(* GenOps(st) is a tuple of sets of operations (each set of one shape); the *)
(* invariant SInv is checked in every state on the way.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS GInit, GenOps(_), Outcomes(_, _, _), SInv(_), Depth

VARIABLES st, hist

GStart == st = GInit /\ hist = <<>>

GNext == /\ Len(hist) < Depth
         /\ LET g == GenOps(st) IN
            \E i \in DOMAIN g : \E op \in g[i] : \E oc \in Outcomes(st, op.o, op.a) :
              /\ st' = oc.st
              /\ hist' = Append(hist, <<op.o, op.a>>)

Inv == SInv(st)
Emit == Len(hist) = Depth => PrintT("GEN" \o ToJson(hist))
=============================================================================
