---- MODULE ViewGen ----
EXTENDS ViewSpec, GenBase
CONSTANTS MaxT, MaxZ
Op(n, a) == [o |-> n, a |-> a]
Texts(A, k) == UNION { [1..m -> A] : m \in 0..k }
VT == Texts({97, 98}, MaxT)
VZ == Texts({97, 98}, MaxZ)
Win(T) == { w \in (0..Len(T)) \X (0..Len(T)) : w[1] <= w[2] }
VGenOps(s) == <<
  UNION { { Op(n, <<T, w[1], w[2], Z>>) : n \in {"eqz", "eqv", "startsz", "startsv", "findv", "less"}, w \in Win(T), Z \in VZ } : T \in VT },
  UNION { { Op(n, <<T, w[1], w[2]>>) : n \in {"text", "size", "range", "front", "iter"}, w \in Win(T) } : T \in VT },
  UNION { { Op("range", <<T, w[2], w[1]>>) : w \in Win(T) } : T \in VT },
  UNION { { Op(n, <<T, w[1], w[2], i>>) : n \in {"idx", "at"}, w \in Win(T), i \in (0..(Len(T) + 1)) \cup {-1} } : T \in VT },
  UNION { { Op("substr", <<T, w[1], w[2], i, k>>) : w \in Win(T), i \in (0..(Len(T) + 1)) \cup {-1}, k \in (0..2) \cup {-1, -2} } : T \in VT },
  UNION { { Op("overlaps", <<T, w[1], w[2], v[1], v[2]>>) : w \in Win(T), v \in Win(T) } : T \in VT },
  { Op("zsub", <<T, i>>) : T \in VT, i \in (0..(MaxT + 1)) \cup {-1} }, { Op("zsize", <<T, 0>>) : T \in VT },
  { Op("zeq", <<T, 0, 0, Z>>) : T \in VT, Z \in VZ }, { Op("null", <<<<>>, 0, 0>>) } >>
VSInv(s) == TRUE
====
