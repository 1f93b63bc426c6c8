------------------------------ MODULE HashImpl ------------------------------
(* Open addressing with tombstones, as the hash table does it, refining the *)
(* abstract map.  Any assignment of home slots to keys is explored.  Slots  *)
(* hold 0 (never used), -1 (tombstone) or a key; val holds the values.      *)
(* A rehash happens when entries + tombstones reach Limit of Cap slots.     *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Keys, Cap, Limit, Vals, MaxCap
VARIABLES cap, slot, val, home, abs
vars == <<cap, slot, val, home, abs>>
Slots == 0..(cap - 1)
Home(k) == home[k] % cap
\* The probe sequence of a key.
Probe(k, i) == (Home(k) + i) % cap
Used == {j \in Slots : slot[j] # 0}
\* Where a lookup ends: at the key, or at a never used slot.
Ends(k, i) == slot[Probe(k, i)] = 0 \/ slot[Probe(k, i)] = k
Terminates(k) == \E i \in 0..(cap - 1) : Ends(k, i)
EndAt(k) == CHOOSE i \in 0..(cap - 1) : Ends(k, i) /\ \A j \in 0..(i - 1) : ~Ends(k, j)
Found(k) == slot[Probe(k, EndAt(k))] = k
Lookup(k) == IF Found(k) THEN val[Probe(k, EndAt(k))] ELSE 0

Init == /\ cap = Cap /\ slot = [j \in 0..(Cap - 1) |-> 0] /\ val = [j \in 0..(Cap - 1) |-> 0]
        /\ home \in [Keys -> 0..(Cap - 1)] /\ abs = [k \in Keys |-> 0]

FreeAt(sl, c, k) == CHOOSE i \in 0..(c - 1) : sl[((home[k] % c) + i) % c] <= 0 /\ \A j \in 0..(i - 1) : sl[((home[k] % c) + j) % c] > 0
Insert(k, v) ==
  /\ abs' = [abs EXCEPT ![k] = v]
  /\ IF Found(k)
     THEN val' = [val EXCEPT ![Probe(k, EndAt(k))] = v] /\ UNCHANGED <<cap, slot>>
     ELSE /\ Cardinality(Used) < Limit * (cap \div Cap)
          /\ LET j == Probe(k, FreeAt(slot, cap, k))
             IN slot' = [slot EXCEPT ![j] = k] /\ val' = [val EXCEPT ![j] = v]
          /\ UNCHANGED cap
  /\ UNCHANGED home
\* Reinserting the live entries into a clean table, in table order, possibly doubling it.
Rehash(newcap) ==
  /\ Cardinality(Used) >= Limit * (cap \div Cap)
  /\ newcap <= MaxCap
  /\ LET live == {j \in Slots : slot[j] > 0}
         Place[S \in SUBSET live] ==
           IF S = {} THEN [sl |-> [j \in 0..(newcap - 1) |-> 0], va |-> [j \in 0..(newcap - 1) |-> 0]]
           ELSE LET j == CHOOSE x \in S : \A y \in S : x >= y
                    r == Place[S \ {j}]
                    p == ((home[slot[j]] % newcap) + FreeAt(r.sl, newcap, slot[j])) % newcap
                IN [sl |-> [r.sl EXCEPT ![p] = slot[j]], va |-> [r.va EXCEPT ![p] = val[j]]]
         res == Place[live]
     IN slot' = res.sl /\ val' = res.va
  /\ cap' = newcap
  /\ UNCHANGED <<home, abs>>
Remove(k) ==
  /\ abs' = [abs EXCEPT ![k] = 0]
  /\ IF Found(k)
     THEN LET j == Probe(k, EndAt(k))
              lonely == slot[(j + cap - 1) % cap] = 0 /\ slot[(j + 1) % cap] = 0
          IN slot' = [slot EXCEPT ![j] = IF lonely THEN 0 ELSE -1] /\ val' = [val EXCEPT ![j] = 0]
     ELSE UNCHANGED <<slot, val>>
  /\ UNCHANGED <<cap, home>>
Next == \/ \E k \in Keys, v \in Vals : Insert(k, v)
        \/ \E k \in Keys : Remove(k)
        \/ Rehash(2 * cap) \/ (Rehash(cap) /\ \E j \in Slots : slot[j] = -1)
Spec == Init /\ [][Next]_vars
\* The table is the abstract map, every lookup terminates, and no key is stored twice.
Refines == \A k \in Keys : Terminates(k) /\ Lookup(k) = abs[k]
NoDuplicates == \A i, j \in Slots : (slot[i] > 0 /\ slot[i] = slot[j]) => i = j
=============================================================================
