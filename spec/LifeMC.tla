-------------------------------- MODULE LifeMC -------------------------------
(* Two growing arrays that own their elements, slot by slot: what every     *)
(* operation does to the slots is accepted by LifeSpec, exactly the         *)
(* contained slots are alive afterwards, and nothing is left in the end.    *)
EXTENDS LifeSpec, SequencesExt
CONSTANTS Blocks, MaxCap, Depth
VARIABLES own, blocks, alive, steps, bad
vars == <<own, blocks, alive, steps, bad>>
Id(b, i) == b * 10 + i
None == [b |-> 0, cap |-> 0, n |-> 0]
LInit == own = <<None, None>> /\ blocks = {} /\ alive = LfInit /\ steps = 0 /\ bad = FALSE
\* A list of <<slot, what>> in order, as the events of a trace.
Items(q) ==
  LET Ids == { q[i][1] : i \in DOMAIN q }
      Of(id) == LET s == SelectSeq(q, LAMBDA x : x[1] = id) IN [i \in DOMAIN s |-> s[i][2]]
      Pairs(s) == { 10 * s[i] + s[i + 1] : i \in 1..(Len(s) - 1) }
      Item(id) == LET s == Of(id) IN <<id, s[1], s[Len(s)]>> \o SetToSeq(Pairs(s))
  IN SetToSeq({ Item(id) : id \in Ids })
Kill(o) == [i \in 1..o.n |-> <<Id(o.b, i), 2>>]
Rel(o) == IF o.b = 0 THEN {} ELSE {o.b}
Fresh == { b \in 1..Blocks : b \notin blocks }
\* Elements of a into block b: construct, use the old one, destroy the old one.
Relocate(a, b) == FlattenSeq([i \in 1..a.n |-> << <<Id(b, i), 1>>, <<Id(a.b, i), 3>>, <<Id(a.b, i), 2>> >>])
CopyTo(a, b) == FlattenSeq([i \in 1..a.n |-> << <<Id(a.b, i), 3>>, <<Id(b, i), 1>> >>])
Do(q, o, bl) == LET r == LfAfter(alive, Items(q))
                IN /\ own' = o /\ blocks' = bl /\ steps' = steps + 1
                   /\ bad' = (r = {}) /\ alive' = IF r = {} THEN alive ELSE CHOOSE x \in r : TRUE
Push(h) == LET a == own[h] IN
  IF a.n < a.cap THEN Do(<< <<Id(a.b, a.n + 1), 1>> >>, [own EXCEPT ![h].n = @ + 1], blocks)
  ELSE a.cap < MaxCap /\ \E b \in Fresh : b = (CHOOSE x \in Fresh : TRUE) /\
       \* The new element is made first: it may be a copy of one of the old ones.
       Do(<< <<Id(b, a.n + 1), 1>> >> \o Relocate(a, b), [own EXCEPT ![h] = [b |-> b, cap |-> IF a.cap = 0 THEN 1 ELSE 2 * a.cap, n |-> a.n + 1]], (blocks \ Rel(a)) \cup {b})
Pop(h) == own[h].n > 0 /\ Do(<< <<Id(own[h].b, own[h].n), 3>>, <<Id(own[h].b, own[h].n), 2>> >>, [own EXCEPT ![h].n = @ - 1], blocks)
Refused(h) == own[h].n = 0 /\ Do(<<>>, own, blocks)
Clear(h) == Do(Kill(own[h]), [own EXCEPT ![h].n = 0], blocks)
\* The last element moves into a hole.
SwapOut(h) == own[h].n > 1 /\ Do(<< <<Id(own[h].b, 1), 3>>, <<Id(own[h].b, own[h].n), 3>>, <<Id(own[h].b, own[h].n), 2>> >>, [own EXCEPT ![h].n = @ - 1], blocks)
MoveTo(h, g) == IF h = g THEN Do(<<>>, own, blocks)
                ELSE Do(Kill(own[h]), [own EXCEPT ![h] = own[g], ![g] = None], blocks \ Rel(own[h]))
CopyFrom(h, g) == IF h = g THEN Do(<<>>, own, blocks)
                  ELSE IF own[g].n = 0 THEN Do(Kill(own[h]), [own EXCEPT ![h] = None], blocks \ Rel(own[h]))
                  ELSE \E b \in Fresh : b = (CHOOSE x \in Fresh : TRUE) /\
                       Do(CopyTo(own[g], b) \o Kill(own[h]), [own EXCEPT ![h] = [b |-> b, cap |-> own[g].n, n |-> own[g].n]], (blocks \ Rel(own[h])) \cup {b})
Destroy(h) == Do(Kill(own[h]), [own EXCEPT ![h] = None], blocks \ Rel(own[h]))
LNext == steps < Depth /\ \E h \in 1..2 : Push(h) \/ Pop(h) \/ Refused(h) \/ Clear(h) \/ SwapOut(h) \/ Destroy(h) \/ \E g \in 1..2 : MoveTo(h, g) \/ CopyFrom(h, g)
LSpec == LInit /\ [][LNext]_vars
Accepted == ~bad
Contained == alive = UNION { { Id(own[h].b, i) : i \in 1..own[h].n } : h \in 1..2 }
OwnedBlocks == blocks = UNION { Rel(own[h]) : h \in 1..2 } /\ (own[1].b = 0 \/ own[1].b # own[2].b)
\* Ending all owners leaves nothing.
EndsEmpty == LfAccept(alive, [o |-> "end", a |-> <<0, 0, 0>>, x |-> 0, r |-> Items(Kill(own[1]) \o Kill(own[2]))]) # {}
=============================================================================
