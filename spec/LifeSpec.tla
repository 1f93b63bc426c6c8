------------------------------- MODULE LifeSpec ------------------------------
(* The life of every instrumented object and of all memory, files and       *)
(* mappings.  e.r lists, for every object an operation touched, its number  *)
(* and what happened to it (1 constructed, 2 destroyed, 3 used): the first, *)
(* the last and every pair 10 * a + b of consecutive things.  The last      *)
(* event, "end", comes when all owners are gone: a holds what is still      *)
(* allocated, open or mapped.  The state is the set of living objects.      *)
EXTENDS Integers, Sequences, FiniteSets
LfInit == {}
\* What can happen to an object that is, or is not, alive.
May(alive, k) == IF alive THEN k \in {2, 3} ELSE k = 1
AliveAfter(k) == k # 2
\* Whether an object is alive is determined by the last thing that happened to it.
Fine(s, q) == May(q[1] \in s, q[2]) /\ \A i \in 4..Len(q) : May(AliveAfter(q[i] \div 10), q[i] % 10)
LfAfter(s, r) ==
  IF \E i \in DOMAIN r : ~Fine(s, r[i]) THEN {}
  ELSE { (s \ { r[i][1] : i \in DOMAIN r }) \cup { r[i][1] : i \in { j \in DOMAIN r : AliveAfter(r[j][3]) } } }
LfAccept(s, e) ==
  IF e.x = 2 /\ e.r = <<1006>> THEN { [st |-> s, kf |-> ""] }   \* a deliberate abort
  ELSE IF e.x \notin {0, 1, 3} THEN {}
  ELSE { [st |-> q, kf |-> ""] : q \in { p \in LfAfter(s, e.r) : e.o = "end" => p = {} /\ e.a = <<0, 0, 0>> } }
LfTInit(t) == LfInit
=============================================================================
