------------------------------ MODULE MapSpec -------------------------------
(* Hash map / hash set / ordered map as abstract finite maps from integer   *)
(* keys to integer values (a set stores the value 1).  State: two maps.     *)
(* The projection shows, per map, <<size, empty?, consistent?>> and the     *)
(* entries found by iterating, sorted by key: flat <<k1, v1, k2, v2, ...>>. *)
(* "consistent" is 1 when lookup and contains agree with the iteration on   *)
(* every key mentioned so far.                                              *)
EXTENDS SeqCommon, SequencesExt, Functions, TLC

Empty == [k \in {} |-> 0]
MInit == << Empty, Empty >>
Keys(m) == DOMAIN m
Set1(m, k, v) == (k :> v) @@ m
Del(m, k) == Restrict(m, DOMAIN m \ {k})
Sorted(m) == SetToSortSeq(DOMAIN m, LAMBDA a, b : a < b)
Entries(m) == LET s == Sorted(m) IN [i \in 1..(2 * Len(s)) |-> IF i % 2 = 1 THEN s[(i + 1) \div 2] ELSE m[s[i \div 2]]]
MOne(m) == << << Cardinality(DOMAIN m), B(DOMAIN m = {}), 1 >>, Entries(m) >>
MProj(s) == << MOne(s[1]), MOne(s[2]) >>
FillVal(k, w) == (k * 31 + w) % 1000

MOutcomes(s, o, a) ==
  LET h == a[1] + 1
      m == s[h]
      Put(n) == [s EXCEPT ![h] = n]
      Has(k) == k \in DOMAIN m
  IN CASE o = "ins" -> { Ok(Put(Set1(m, a[2], a[3])), << a[3] >>) }
       [] o = "sins" -> { Ok(Put(Set1(m, a[2], 1)), << B(~Has(a[2])) >>) }
       [] o = "insown" ->   \* the key argument is the key stored in the table
            IF Has(a[2]) THEN { Ok(Put(Set1(m, a[2], a[3])), << a[3] >>) } ELSE { Ok(s, <<>>) }
       [] o = "idx" -> IF Has(a[2]) THEN { Ok(s, << m[a[2]] >>) } ELSE { Ok(Put(Set1(m, a[2], 0)), <<0>>) }
       [] o = "idxset" -> { Ok(Put(Set1(m, a[2], a[3])), <<>>) }
       [] o = "rem" -> { Ok(Put(Del(m, a[2])), <<>>) }
       [] o = "remown" -> { Ok(Put(Del(m, a[2])), <<>>) }
       [] o = "look" -> { Ok(s, IF Has(a[2]) THEN << m[a[2]] >> ELSE <<>>) }
       \* Writing through what lookup returned changes that entry and no other.
       [] o = "lookset" -> IF Has(a[2]) THEN { Ok(Put(Set1(m, a[2], a[3])), << 1 >>) } ELSE { Ok(s, << 0 >>) }
       [] o = "reserve" -> { Ok(s, <<>>) }
       \* Iterators of one container: the same position compares equal; of two containers: refused.
       [] o = "itersame" -> IF a[1] = a[2] THEN { Ok(s, << 1 >>) } ELSE { Exc(s) }
       [] o = "iteq" ->   \* the iterators that many steps from the beginning (at most at the end) compare equal
            LET n == Cardinality(DOMAIN m) IN { Ok(s, << B(Min({a[2], n}) = Min({a[3], n})) >>) }
       [] o = "bump" -> { Ok(Put([k \in DOMAIN m |-> m[k] + 1]), <<>>) }   \* writing to every entry while iterating
       [] o = "count" -> { Ok(s, << Cardinality(DOMAIN m), B(DOMAIN m = {}) >>) }
       [] o = "walk" -> { Ok(s, SubSeq(Sorted(m), 1, Min({a[2], Cardinality(DOMAIN m)}))) }
       [] o = "at" -> IF Has(a[2]) THEN { Ok(s, << m[a[2]] >>) } ELSE { Exc(s) }
       [] o = "has" -> { Ok(s, << B(Has(a[2])) >>) }
       [] o = "clear" -> { Ok(Put(Empty), <<>>) }
       [] o = "move" -> IF a[1] = a[2] THEN { Ok(s, <<>>) } ELSE { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = Empty], <<>>) }
       [] o = "movector" -> { Ok([s EXCEPT ![h] = s[a[2] + 1], ![a[2] + 1] = Empty], <<>>) }
       \* Bulk operations: keys base, base + step, ...  (count of them)
       [] o = "fill" -> { Ok(Put([k \in {a[2] + i * a[3] : i \in 0..(a[4] - 1)} |-> FillVal(k, a[5])] @@ m), <<>>) }
       [] o = "sfill" -> { Ok(Put([k \in {a[2] + i * a[3] : i \in 0..(a[4] - 1)} |-> 1] @@ m), <<>>) }
       [] o = "cut" -> { Ok(Put(Restrict(m, DOMAIN m \ {a[2] + i * a[3] : i \in 0..(a[4] - 1)})), <<>>) }
       \* Insert then remove count fresh keys one at a time: the map is unchanged.
       [] o = "churn" -> { Ok(Put(Restrict(m, DOMAIN m \ {a[2] + i : i \in 0..(a[3] - 1)})), <<>>) }
       [] OTHER -> {}
MAccept(s, e) == StdAccept(MOutcomes(s, e.o, e.a), e, MProj)
MTInit(t) == MInit
MInvariant(s) == TRUE
=============================================================================
