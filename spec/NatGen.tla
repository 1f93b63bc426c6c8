---- MODULE NatGen ----
EXTENDS NatSpec, GenBase
CONSTANTS MaxT
NT == UNION { [1..m -> {47, 48, 49, 50, 97}] : m \in 0..MaxT }
NGenOps(s) == << { [o |-> "nat", a |-> <<T, 0, Len(T), U>>] : T \in NT, U \in NT } >>
NSInv(s) == TRUE
====
