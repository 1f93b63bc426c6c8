------------------------------ MODULE AlgoSpec ------------------------------
(* What sorting, selection, search and rearrangement mean.  An element is   *)
(* key * 32768 + tag; tags are the input positions, so elements are unique  *)
(* and the original order of equivalent elements stays visible.  Every      *)
(* operation gets the whole array and the subrange [lo, hi) it may touch;   *)
(* its result carries the whole array afterwards.                           *)
EXTENDS SeqCommon, TLC

W == 32768
Key(v) == v \div W
\* The orderings: 0 natural (comparator left out), 1 reversed, 2 by key, 3 by key reversed, 4 by key modulo 7,
\* 5 everything equivalent, 6 natural (explicit comparator)
Lt(c, a, b) ==
  CASE c = 0 -> a < b
    [] c = 1 -> b < a
    [] c = 2 -> Key(a) < Key(b)
    [] c = 3 -> Key(b) < Key(a)
    [] c = 4 -> (Key(a) % 7) < (Key(b) % 7)
    [] c = 5 -> FALSE
    [] c = 6 -> a < b
Range(s, lo, hi) == { s[i] : i \in (lo + 1)..hi }
Outside(s, t, lo, hi) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : (i <= lo \/ i > hi) => s[i] = t[i]
\* Elements are unique.
Perm(s, t, lo, hi) == Outside(s, t, lo, hi) /\ Range(s, lo, hi) = Range(t, lo, hi)
SortedBy(c, t, lo, hi) == \A i \in (lo + 1)..(hi - 1) : ~Lt(c, t[i + 1], t[i])
InOrder(t, lo, hi, c) ==   \* equivalent neighbours are in input order
  \A i \in (lo + 1)..(hi - 1) : (~Lt(c, t[i], t[i + 1]) /\ ~Lt(c, t[i + 1], t[i])) => (t[i] % W) < (t[i + 1] % W)
Equiv(c, a, b) == ~Lt(c, a, b) /\ ~Lt(c, b, a)

\* Algorithms: 0 insertion, 1 heap, 2 intro, 3 merge, 4 shell; stable ones: 0, 3
Stable == {0, 3}

\* Predicates: p < 1000: key < p; p >= 1000: key is odd
Sat(p, v) == IF p < 1000 THEN Key(v) < p ELSE Key(v) % 2 = 1

Tail1(s) == SubSeq(s, 2, Len(s))
\* Unsigned integers of any width as four 16-bit limbs, most significant first.
Limb(s, i) == SubSeq(s, 4 * i - 3, 4 * i)
Limbs(s) == [i \in 1..(Len(s) \div 4) |-> Limb(s, i)]
LimbLeq(a, b) == a = b \/ \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A v \in { s[i] : i \in DOMAIN s } : Cardinality({ i \in DOMAIN s : s[i] = v }) = Cardinality({ i \in DOMAIN t : t[i] = v })

First(S, d) == IF S = {} THEN d ELSE CHOOSE i \in S : \A j \in S : i <= j

AJudge(o, a, x, r) ==
  CASE o = "sort" ->    \* alg form type cmp lo hi vals
         LET al == a[1] c == a[4] lo == a[5] hi == a[6] s == a[7]
         IN x = 0 /\ Perm(s, r, lo, hi) /\ SortedBy(c, r, lo, hi) /\ (al \in Stable => InOrder(r, lo, hi, c))
    [] o = "dsort" ->   \* alg form type lo hi vals: plain values, possibly equal ones, in their natural order
         LET lo == a[4] hi == a[5] s == a[6]
         IN /\ x = 0 /\ Outside(s, r, lo, hi) /\ SortedBy(0, r, lo, hi)
            /\ SameBag(SubSeq(s, lo + 1, hi), SubSeq(r, lo + 1, hi))
    [] o = "isort" ->   \* alg form bits lo hi limbs
         LET lo == a[4] hi == a[5] s == Limbs(a[6]) t == Limbs(r)
         IN /\ x = 0 /\ Len(a[6]) = Len(r) /\ Outside(s, t, lo, hi)
            /\ SameBag(SubSeq(s, lo + 1, hi), SubSeq(t, lo + 1, hi))
            /\ \A i \in (lo + 1)..(hi - 1) : LimbLeq(t[i], t[i + 1])
    [] o = "isortu" ->  \* alg form bits lo hi vals: unique values
         LET lo == a[4] hi == a[5] s == a[6]
         IN x = 0 /\ Perm(s, r, lo, hi) /\ SortedBy(0, r, lo, hi)
    [] o = "indirect" ->  \* stable type cmp vals; result: indices, then the array
         LET s == a[4] n == Len(s) ix == SubSeq(r, 1, n) c == a[3]
         IN /\ x = 0 /\ Len(r) = 2 * n /\ SubSeq(r, n + 1, 2 * n) = s
            /\ { ix[i] : i \in 1..n } = 0..(n - 1)
            /\ \A i \in 1..(n - 1) : ~Lt(c, s[ix[i + 1] + 1], s[ix[i] + 1])
            /\ a[1] = 1 => \A i \in 1..(n - 1) : Equiv(c, s[ix[i] + 1], s[ix[i + 1] + 1]) => ix[i] < ix[i + 1]
    [] o = "adversary" -> \* alg n k: the order is made up while the algorithm runs; result: elements, then their ranks
         LET n == a[2] e == SubSeq(r, 1, n) v == SubSeq(r, n + 1, 2 * n)
         IN /\ x = 0 /\ Len(r) = 2 * n /\ { e[i] : i \in 1..n } = 0..(n - 1)
            /\ IF a[1] < 5 THEN \A i \in 1..(n - 1) : v[i] <= v[i + 1]
               ELSE /\ \A i \in 1..a[3] : v[i] <= v[a[3] + 1]
                    /\ \A i \in (a[3] + 1)..n : v[a[3] + 1] <= v[i]
                    /\ a[1] = 6 => \A i \in 1..a[3] : v[i] <= v[i + 1]
    [] o \in {"partition", "stablepart"} ->   \* form type pred lo hi vals
         LET p == a[3] lo == a[4] hi == a[5] s == a[6] t == Tail1(r) pt == r[1] + (IF a[1] = 1 THEN lo ELSE 0)
         IN /\ x = 0 /\ Perm(s, t, lo, hi)
            /\ lo <= pt /\ pt <= hi
            /\ \A i \in (lo + 1)..pt : Sat(p, t[i])
            /\ \A i \in (pt + 1)..hi : ~Sat(p, t[i])
            /\ o = "stablepart" => \A i \in (lo + 1)..(hi - 1) : i # pt => (t[i] % W) < (t[i + 1] % W)
    [] o = "rotate" ->  \* form type lo mid hi vals
         LET lo == a[3] mid == a[4] hi == a[5] s == a[6]
         IN x = 0 /\ r = <<lo + hi - mid>> \o SubSeq(s, 1, lo) \o SubSeq(s, mid + 1, hi) \o SubSeq(s, lo + 1, mid) \o SubSeq(s, hi + 1, Len(s))
    [] o = "bigsort" -> \* alg pattern n k seed: the driver counts what is out of order, lost, reordered, on the wrong side
         x = 0 /\ r = <<0, 0, 0, 0>>
    [] o = "bigrotate" -> \* n mid samples: 0..n-1 rotated
         x = 0 /\ r = <<a[1] - a[2]>> \o [i \in 1..Len(a[3]) |-> (a[3][i] + a[2]) % a[1]]
    [] o = "insert1" -> \* type cmp lo hi vals (all but the last of [lo, hi) ordered): the last goes to its place, behind its equals
         LET c == a[2] lo == a[3] hi == a[4] s == a[5]
         IN x = 0 /\ Perm(s, r, lo, hi) /\ SortedBy(c, r, lo, hi) /\ InOrder(r, lo, hi, c)
    [] o = "rotlast" -> \* type lo hi vals
         LET lo == a[2] hi == a[3] s == a[4]
         IN x = 0 /\ r = IF hi - lo < 2 THEN s ELSE SubSeq(s, 1, lo) \o <<s[hi]>> \o SubSeq(s, lo + 1, hi - 1) \o SubSeq(s, hi + 1, Len(s))
    [] o = "rotfirst" ->
         LET lo == a[2] hi == a[3] s == a[4]
         IN x = 0 /\ r = IF hi - lo < 2 THEN s ELSE SubSeq(s, 1, lo) \o SubSeq(s, lo + 2, hi) \o <<s[lo + 1]>> \o SubSeq(s, hi + 1, Len(s))
    [] o \in {"nth", "psort"} ->   \* form type cmp lo hi n vals
         LET c == a[3] lo == a[4] hi == a[5] n == a[6] s == a[7]
         IN IF n < 0 \/ n >= hi - lo THEN x = 1
            ELSE LET t == Tail1(r) at == lo + n + 1
                 IN /\ x = 0 /\ r[1] = n + (IF a[1] = 1 THEN 0 ELSE lo) /\ Perm(s, t, lo, hi)
                    /\ \A i \in (lo + 1)..(at - 1) : ~Lt(c, t[at], t[i])
                    /\ \A i \in (at + 1)..hi : ~Lt(c, t[i], t[at])
                    /\ o = "psort" => SortedBy(c, t, lo, at)
    [] o = "lower" ->   \* type cmp lo hi q vals (ordered within [lo, hi))
         LET c == a[2] lo == a[3] hi == a[4] s == a[6]
         IN x = 0 /\ r = <<First({ i - 1 : i \in { k \in (lo + 1)..hi : ~Lt(c, s[k], a[5]) } }, hi)>>
    [] o = "min" ->     \* type cmp lo hi vals
         LET c == a[2] lo == a[3] hi == a[4] s == a[5]
         IN x = 0 /\ r = <<First({ i - 1 : i \in { k \in (lo + 1)..hi : \A m \in (lo + 1)..hi : ~Lt(c, s[m], s[k]) } }, hi)>>
    [] o = "max" ->
         LET c == a[2] lo == a[3] hi == a[4] s == a[5]
         IN x = 0 /\ r = <<First({ i - 1 : i \in { k \in (lo + 1)..hi : \A m \in (lo + 1)..hi : ~Lt(c, s[k], s[m]) } }, hi)>>
    [] o = "issorted" -> x = 0 /\ r = <<B(SortedBy(a[2], a[5], a[3], a[4]))>>
    [] o = "find" ->    \* type lo hi q vals
         LET lo == a[2] hi == a[3] s == a[5]
         IN x = 0 /\ r = <<First({ i - 1 : i \in { k \in (lo + 1)..hi : s[k] = a[4] } }, hi)>>
    [] o = "findif" ->  \* type not pred lo hi vals
         LET lo == a[4] hi == a[5] s == a[6]
         IN x = 0 /\ r = <<First({ i - 1 : i \in { k \in (lo + 1)..hi : Sat(a[3], s[k]) # (a[2] = 1) } }, hi)>>
    [] o = "minmax" ->  \* a b (scaled by 2^shift)
         x = 0 /\ r = << MinI(a[1], a[2]), MaxI(a[1], a[2]) >>
    [] OTHER -> FALSE

AAccept(st, e) == IF AJudge(e.o, e.a, e.x, e.r) THEN { [st |-> st, kf |-> ""] } ELSE {}
ATInit(t) == <<>>
=============================================================================
