------------------------------ MODULE HeapImpl ------------------------------
(* Insertion sort, heap sort and the bounded heap selection on every small  *)
(* array.                                                                   *)
EXTENDS SortCommon
CONSTANTS N, K, MinHeap
VARIABLES in
Init == in \in UNION { Inputs(n, K) : n \in 0..N }
Next == FALSE /\ in' = in
Spec == Init /\ [][Next]_in
InsertionSorts == LET r == InsertionSort([a |-> in, ok |-> TRUE], 0, Size(in))
                  IN r.ok /\ Elems(r.a) = Elems(in) /\ Stable(r.a, 0, Size(in))
HeapSorts == LET r == HeapSort([a |-> in, ok |-> TRUE], 0, Size(in), MinHeap)
             IN r.ok /\ Elems(r.a) = Elems(in) /\ Sorted(r.a, 0, Size(in))
RECURSIVE Feed(_, _, _)
Feed(a, n, i) == IF i >= Size(a) THEN a
                 ELSE IF Lt(a[i], a[0]) THEN Feed(Heapify(Swap(a, 0, i), 0, n, 0), n, i + 1) ELSE Feed(a, n, i + 1)
HeapSelects == \A nth \in 0..(Size(in) - 1) :
  LET b == Build(in, 0, nth + 1, ((nth + 1) \div 2) - 1)
      f == Feed(b, nth + 1, nth + 1)
      r == Swap(f, 0, nth)
  IN /\ Elems(r) = Elems(in)
     /\ \A i \in 0..(nth - 1) : ~Lt(r[nth], r[i])
     /\ \A i \in (nth + 1)..(Size(in) - 1) : ~Lt(r[i], r[nth])
=============================================================================
