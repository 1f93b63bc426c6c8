----------------------------- MODULE MergeImpl ------------------------------
(* The half-buffer merge sort of include/pystd2026_mergesort.hpp: blocks    *)
(* are merged back and forth between the two halves and a buffer of half    *)
(* the size.  On every small array: sorted, stable, nothing lost, never a   *)
(* write outside the two arrays, never an unread element overwritten.       *)
EXTENDS SortCommon, TLC
CONSTANTS N, K, Limit
VARIABLES in
Init == in \in UNION { Inputs(n, K) : n \in 0..N }
Next == FALSE /\ in' = in
Spec == Init /\ [][Next]_in

\* One memory: addresses 0..n-1 the array, n..n+b-1 the buffer.
\* State of a pass: m (memory), ok.
RECURSIVE MergePass(_, _, _, _, _, _)
MergePass(s, l, le, r, re, out) ==
  IF ~s.ok \/ (l = le /\ r = re) THEN s
  ELSE LET takeRight == l = le \/ (r # re /\ Lt(s.m[r], s.m[l]))
           src == IF takeRight THEN r ELSE l
           \* A cell that still has to be read must not be overwritten by another one.
           pending == ((l..(le - 1)) \cup (r..(re - 1))) \ {src}
           fine == out \in DOMAIN s.m /\ src \in DOMAIN s.m /\ out \notin pending
       IN IF ~fine THEN [s EXCEPT !.ok = FALSE]
          ELSE MergePass([s EXCEPT !.m[out] = s.m[src]],
                         IF takeRight THEN l ELSE l + 1, le, IF takeRight THEN r + 1 ELSE r, re, out + 1)
RECURSIVE Blocks(_, _, _, _, _, _)
Blocks(s, b, e, out, size, start) ==
  LET n == e - b IN
  IF start >= n THEN s
  ELSE LET l == b + start
           s2 == IF start + size >= n THEN MergePass(s, l, l + (n - start), l, l, out + start)
                 ELSE MergePass(s, l, l + size, l + size,
                                l + size + (IF start + 2 * size >= n THEN n - (start + size) ELSE size), out + start)
       IN Blocks(s2, b, e, out, size, start + 2 * size)
RECURSIVE Pre(_, _, _)
Pre(r, lo, hi) == IF lo >= hi THEN r
                  ELSE LET e == IF lo + Limit < hi THEN lo + Limit ELSE hi IN Pre(InsertionSort(r, lo, e), lo + Limit, hi)
RECURSIVE Rounds(_, _, _, _)
Rounds(s, size, n, buf) ==    \* buf: the buffer's length
  LET left == n - buf
      rb == IF left = buf THEN left ELSE left + 1
  IN IF size >= buf THEN [s |-> s, fix |-> TRUE]
     ELSE LET s1 == Blocks(s, left, n, n, size, 0)
              s2 == Blocks(s1, 0, left, rb, size, 0)
          IN IF 2 * size >= buf THEN [s |-> s2, fix |-> FALSE]
             ELSE LET s3 == Blocks(s2, rb, n, 0, 2 * size, 0)
                      s4 == Blocks(s3, n, n + buf, left, 2 * size, 0)
                  IN Rounds(s4, 4 * size, n, buf)
MergeSort(a) ==
  LET n == Size(a)
      buf == (n + 1) \div 2
      left == n - buf
      rb == IF left = buf THEN left ELSE left + 1
      p0 == Pre([a |-> a, ok |-> TRUE], 0, left)
      p1 == Pre(p0, left, n)
      mem == [i \in 0..(n + buf - 1) |-> IF i < n THEN p1.a[i] ELSE <<99, 99>>]
      r == Rounds([m |-> mem, ok |-> p1.ok], Limit, n, buf)
      fixed == [r.s EXCEPT !.m = [i \in DOMAIN @ |-> IF i >= n /\ i < n + left THEN @[i - n] ELSE @[i]]]
      f == IF r.fix THEN MergePass(fixed, n, n + left, left, n, 0)
           ELSE MergePass(r.s, rb, n, n, n + buf, 0)
  IN IF n <= 2 * Limit THEN InsertionSort([a |-> a, ok |-> TRUE], 0, n)
     ELSE [a |-> [i \in 0..(n - 1) |-> f.m[i]], ok |-> f.ok]
Sorts == LET r == MergeSort(in) IN r.ok /\ Elems(r.a) = Elems(in) /\ Stable(r.a, 0, Size(in))
=============================================================================
