----------------------------- MODULE SortCommon -----------------------------
(* Building blocks shared by the models of the sorting algorithms: arrays   *)
(* are functions from 0..n-1; the elements are pairs <<key, tag>> compared  *)
(* by key.  A result is [a |-> array, ok |-> no access left the array].     *)
EXTENDS Integers, Sequences, FiniteSets
Lt(x, y) == x[1] < y[1]
Size(a) == Cardinality(DOMAIN a)
In(a, i) == i \in DOMAIN a
Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
Elems(a) == { a[i] : i \in DOMAIN a }
Sorted(a, lo, hi) == \A i \in lo..(hi - 2) : ~Lt(a[i + 1], a[i])
Stable(a, lo, hi) == \A i \in lo..(hi - 2) : a[i][1] < a[i + 1][1] \/ (a[i][1] = a[i + 1][1] /\ a[i][2] < a[i + 1][2])
\* Every array of length n over keys 0..k-1, tagged with its positions.
Inputs(n, k) == { [i \in 0..(n - 1) |-> <<f[i], i>>] : f \in [0..(n - 1) -> 0..(k - 1)] }

MinIdx(a, lo, hi) == CHOOSE i \in lo..(hi - 1) : (\A j \in lo..(hi - 1) : ~Lt(a[j], a[i])) /\ (\A j \in lo..(i - 1) : Lt(a[i], a[j]))
RotLast(a, lo, hi) == [i \in DOMAIN a |-> IF i = lo THEN a[hi - 1] ELSE IF i > lo /\ i < hi THEN a[i - 1] ELSE a[i]]

\* linear_insert_has_sentinel: move element at `at` left past everything larger, without looking at the range's start.
RECURSIVE Slot(_, _, _)
Slot(a, x, j) == IF ~In(a, j - 1) THEN -1 ELSE IF Lt(x, a[j - 1]) THEN Slot(a, x, j - 1) ELSE j
Insert1(r, at) ==
  IF ~r.ok THEN r
  ELSE LET j == Slot(r.a, r.a[at], at)
       IN IF j = -1 THEN [r EXCEPT !.ok = FALSE] ELSE [r EXCEPT !.a = RotLast(r.a, j, at + 1)]
RECURSIVE InsFrom(_, _, _)
InsFrom(r, i, hi) == IF i >= hi THEN r ELSE InsFrom(Insert1(r, i), i + 1, hi)
SentinelSort(r, lo, hi) == IF lo = hi THEN r ELSE InsFrom(r, lo + 1, hi)
InsertionSort(r, lo, hi) ==
  IF ~r.ok \/ hi - lo < 2 THEN r
  ELSE LET m == MinIdx(r.a, lo, hi) IN SentinelSort([r EXCEPT !.a = RotLast(r.a, lo, m + 1)], lo + 1, hi)

\* Heap sort with an insertion sorted rest of MinHeap + 1 elements.
RECURSIVE Heapify(_, _, _, _)
Heapify(a, lo, hi, i) ==
  LET off == i - lo
      l == lo + 2 * off + 1
      r == lo + 2 * off + 2
      b1 == IF l < hi /\ Lt(a[i], a[l]) THEN l ELSE i
      b2 == IF r < hi /\ Lt(a[b1], a[r]) THEN r ELSE b1
  IN IF b2 = i THEN a ELSE Heapify(Swap(a, b2, i), lo, hi, b2)
RECURSIVE Build(_, _, _, _), Drain(_, _, _, _)
Build(a, lo, hi, i) == IF i < lo THEN a ELSE Build(Heapify(a, lo, hi, i), lo, hi, i - 1)
Drain(a, lo, i, mn) == IF i <= lo + mn THEN a ELSE Drain(Heapify(Swap(a, lo, i), lo, i, lo), lo, i - 1, mn)
HeapSort(r, lo, hi, mn) ==
  IF ~r.ok THEN r
  ELSE IF hi - lo <= mn THEN InsertionSort(r, lo, hi)
  ELSE InsertionSort([r EXCEPT !.a = Drain(Build(r.a, lo, hi, lo + ((hi - lo) \div 2) - 1), lo, hi - 1, mn)], lo, lo + mn + 1)

\* Two-sided partition that relies on the elements it has just exchanged as sentinels.
RECURSIVE UpWhile(_, _, _, _), DownWhile(_, _, _, _)
UpWhile(a, i, p(_), lim) == IF i >= lim THEN lim ELSE IF p(a[i]) THEN UpWhile(a, i + 1, p, lim) ELSE i
DownWhile(a, i, p(_), lim) == IF i < lim THEN lim - 1 ELSE IF ~p(a[i]) THEN DownWhile(a, i - 1, p, lim) ELSE i
RECURSIVE PLoop(_, _, _, _, _, _)
PLoop(a, lo, hi, p(_), first, last) ==
  LET l == UpWhile(a, lo + 1, p, last)
      h == DownWhile(a, hi - 1, p, first)
  IN IF l >= last \/ h < first THEN [a |-> a, at |-> -1]          \* ran away
     ELSE IF h <= l THEN [a |-> a, at |-> l]
     ELSE PLoop(Swap(a, l, h), l, h, p, first, last)
Partition(a, first, last, p(_)) ==
  IF first = last THEN [a |-> a, at |-> first]
  ELSE LET lo == UpWhile(a, first, p, last)
           h0 == DownWhile(a, last - 1, p, lo + 1)
           hi == IF h0 < lo THEN lo ELSE h0
       IN IF lo = last THEN [a |-> a, at |-> last]
          ELSE IF hi <= lo THEN [a |-> a, at |-> hi]
          ELSE PLoop(Swap(a, lo, hi), lo, hi, p, first, last)
=============================================================================
