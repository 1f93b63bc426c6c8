----------------------------- MODULE QuickImpl ------------------------------
(* The introsort of include/pystd2026_introsort.hpp and the quickselect of  *)
(* pystd2026_nth_element.hpp on every small array, with the thresholds      *)
(* scaled down so that all their branches are taken.                        *)
EXTENDS SortCommon
CONSTANTS N, K, Limit, MinHeap, MaxRounds
VARIABLES in
Init == in \in UNION { Inputs(n, K) : n \in 0..N }
Next == FALSE /\ in' = in
Spec == Init /\ [][Next]_in

Half == 1      \* a sample of three elements
RECURSIVE Gobble(_, _, _, _), Swaps(_, _, _, _), Quick(_, _, _, _, _, _)
Gobble(a, i, hi, x) == IF i < hi /\ ~Lt(x, a[i]) /\ ~Lt(a[i], x) THEN Gobble(a, i + 1, hi, x) ELSE i
Swaps(a, from, to, n) == IF n = 0 THEN a ELSE Swaps(Swap(a, from, to), from + 1, to + 1, n - 1)
Quick(r, lo, hi, leftmost, depth, degen) ==
  LET n == hi - lo IN
  IF ~r.ok THEN r
  ELSE IF n <= Limit THEN IF leftmost THEN InsertionSort(r, lo, hi) ELSE SentinelSort(r, lo, hi)
  ELSE IF depth >= MaxRounds THEN HeapSort(r, lo, hi, MinHeap)
  ELSE LET step == n \div 3
           s1 == Swap(Swap(r.a, lo + step, lo + 1), lo + step, lo + 2)
           s2 == InsertionSort([a |-> s1, ok |-> TRUE], lo, lo + 3)
           piv == lo + Half
           s3 == Swaps(s2.a, piv + 1, hi - Half, Half)
           p == Partition(s3, piv + 1, hi - Half, LAMBDA v : Lt(v, s3[piv]))
           last == p.at - 1
           s4 == Swap(p.a, piv, last)
           rb == Gobble(s4, p.at, hi, s4[last])
           ls == last - lo
           rs == hi - rb
           bad == ls < n \div 8 \/ rs < n \div 8
           base == [a |-> s4, ok |-> s2.ok /\ p.at # -1]
       IN IF bad /\ degen > 0 THEN HeapSort(HeapSort(base, lo, last, MinHeap), rb, hi, MinHeap)
          ELSE LET d == IF bad THEN degen + 1 ELSE 0
               IN Quick(Quick(base, lo, last, leftmost, depth + 1, d), rb, hi, FALSE, depth + 1, d)

\* Quickselect for the nth element, pivot at offset piv % size.
RECURSIVE Select(_, _, _, _, _)
Select(r, lo, hi, nth, round) ==
  LET n == hi - lo IN
  IF ~r.ok THEN [r |-> r, at |-> lo + nth]
  ELSE IF n < Limit \/ round > MaxRounds THEN [r |-> InsertionSort(r, lo, hi), at |-> lo + nth]
  ELSE LET s1 == Swap(r.a, lo, lo + ((round * 5 + 3) % n))
           p == Partition(s1, lo + 1, hi, LAMBDA v : Lt(v, s1[lo]))
           last == p.at - 1
           s2 == [a |-> Swap(p.a, lo, last), ok |-> p.at # -1]
       IN IF last - lo < nth THEN Select(s2, p.at, hi, nth - (p.at - lo), round + 1)
          ELSE IF last - lo > nth THEN Select(s2, lo, last, nth, round + 1)
          ELSE [r |-> s2, at |-> last]

Sorts == LET r == Quick([a |-> in, ok |-> TRUE], 0, Size(in), TRUE, 0, 0)
         IN r.ok /\ Elems(r.a) = Elems(in) /\ Sorted(r.a, 0, Size(in))
Selects == \A nth \in 0..(Size(in) - 1) :
             LET q == Select([a |-> in, ok |-> TRUE], 0, Size(in), nth, 1)
             IN /\ q.r.ok /\ q.at = nth /\ Elems(q.r.a) = Elems(in)
                /\ \A i \in 0..(nth - 1) : ~Lt(q.r.a[nth], q.r.a[i])
                /\ \A i \in (nth + 1)..(Size(in) - 1) : ~Lt(q.r.a[i], q.r.a[nth])
Partitions == \A k \in 0..K :
             LET p == Partition(in, 0, Size(in), LAMBDA v : v[1] < k)
             IN /\ p.at # -1 /\ Elems(p.a) = Elems(in)
                /\ \A i \in 0..(Size(in) - 1) : (p.a[i][1] < k) <=> i < p.at
=============================================================================
