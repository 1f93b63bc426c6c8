------------------------------ MODULE ThreadSpec -----------------------------
(* Mutexes, scoped guards and threads under concurrency.  An event of a     *)
(* trace is a list of records in the order of their time stamps:            *)
(*  <<0, t, op, m>>        thread t is about to call op on mutex m          *)
(*  <<1, t, op, m, res>>   the call has returned                            *)
(*  <<2, t, m, a, b>>      t, between lock and unlock, has seen a and       *)
(*                         written b                                        *)
(*  <<3, t, c>> main is about to start thread t with object c               *)
(*  <<4, t, c>> t's function runs with object c,  <<5, t>> it is about to   *)
(*                         return                                           *)
(*  <<6, t>> join of (or destruction of) t has returned, <<7, t>> t has     *)
(*  been detached, <<8, t, res>> a join or detach of the finished handle    *)
(*  was refused (1) or not, <<9, t>> the handle of a detached thread is gone *)
(*  while its function goes on                                              *)
(* op: 1 lock, 2 unlock, 3 try, 4 guard, 5/6 end of the guard's scope.      *)
(* A call takes effect at some moment between its start and its return.     *)
EXTENDS SeqCommon
NT == 8
NM == 2
Idle == [op |-> 0, m |-> 0, done |-> FALSE, res |-> 0]
\* th: 0 none, 1 started, 2 running, 3 about to return;  hd: 0 no handle, 1 attached, 2 given up
ThInit == [own |-> [m \in 1..NM |-> 0], val |-> [m \in 1..NM |-> 0], call |-> [t \in 1..NT |-> Idle],
           th |-> [t \in 1..NT |-> 0], ctx |-> [t \in 1..NT |-> 0], hd |-> [t \in 1..NT |-> 0]]
Acquires(op) == op \in {1, 4}
Releases(op) == op \in {2, 5, 6}
\* The pending call of t takes effect.
Effect(s, t) ==
  LET c == s.call[t]
      End(own, res) == { [s EXCEPT !.own = own, !.call[t] = [c EXCEPT !.done = TRUE, !.res = res]] }
  IN IF c.op = 0 \/ c.done THEN {}
     ELSE IF Acquires(c.op) THEN (IF s.own[c.m] = 0 THEN End([s.own EXCEPT ![c.m] = t], 1) ELSE {})
     ELSE IF Releases(c.op) THEN (IF s.own[c.m] = t THEN End([s.own EXCEPT ![c.m] = 0], 1) ELSE {})
     ELSE IF s.own[c.m] = 0 THEN End([s.own EXCEPT ![c.m] = t], 1) ELSE End(s.own, 0)
RECURSIVE Closure(_)
Closure(ss) == LET q == ss \cup UNION { UNION { Effect(s, t) : t \in 1..NT } : s \in ss } IN IF q = ss THEN ss ELSE Closure(q)
Holds(s, t, m) == s.own[m] = t /\ s.call[t].op = 0
Rec(s, e) ==
  LET t == e[2]
  IN CASE e[1] = 0 -> IF s.call[t].op = 0 THEN { [s EXCEPT !.call[t] = [op |-> e[3], m |-> e[4], done |-> FALSE, res |-> 0]] } ELSE {}
       [] e[1] = 1 -> { [q EXCEPT !.call[t] = Idle] : q \in { x \in Closure({s}) : x.call[t].op = e[3] /\ x.call[t].m = e[4] /\ x.call[t].done /\ x.call[t].res = e[5] } }
       [] e[1] = 2 -> IF Holds(s, t, e[3]) /\ s.val[e[3]] = e[4] THEN { [s EXCEPT !.val[e[3]] = e[5]] } ELSE {}
       [] e[1] = 3 -> IF s.th[t] = 0 THEN { [s EXCEPT !.th[t] = 1, !.ctx[t] = e[3], !.hd[t] = 1] } ELSE {}
       [] e[1] = 4 -> IF s.th[t] = 1 /\ s.ctx[t] = e[3] THEN { [s EXCEPT !.th[t] = 2] } ELSE {}
       [] e[1] = 5 -> IF s.th[t] = 2 THEN { [s EXCEPT !.th[t] = 3] } ELSE {}
       [] e[1] = 6 -> IF s.th[t] = 3 /\ s.hd[t] = 1 THEN { [s EXCEPT !.hd[t] = 2] } ELSE {}
       [] e[1] = 7 -> IF s.hd[t] = 1 THEN { [s EXCEPT !.hd[t] = 2] } ELSE {}
       [] e[1] = 8 -> IF s.hd[t] = 2 /\ e[3] = 1 THEN { s } ELSE {}
       [] e[1] = 9 -> IF s.hd[t] = 2 /\ s.th[t] \in {1, 2} THEN { s } ELSE {}
       [] OTHER -> {}
RECURSIVE Run(_, _, _)
Run(ss, r, i) == IF ss = {} \/ i > Len(r) THEN ss ELSE Run(UNION { Rec(s, r[i]) : s \in ss }, r, i + 1)
\* At the end of everything: nothing held, nothing pending, every function has run.
Over(s) == (\A m \in 1..NM : s.own[m] = 0) /\ (\A t \in 1..NT : s.call[t].op = 0 /\ s.th[t] \in {0, 3} /\ s.hd[t] # 1)
ThAccept(s, e) ==
  IF e.x # 0 THEN {}
  ELSE LET q == Run({s}, e.r, 1)
       IN CASE e.o \in {"do", "nap"} -> { [st |-> x, kf |-> ""] : x \in q }
            [] e.o = "fin" -> { [st |-> x, kf |-> ""] : x \in { y \in q : \A m \in 1..NM : y.own[m] = 0 } }
            [] e.o \in {"free", "life"} -> IF \E x \in q : Over(x) THEN { [st |-> ThInit, kf |-> ""] } ELSE {}
            [] e.o = "probe" -> IF e.r = <<1, 1, 1, 1>> THEN { [st |-> s, kf |-> ""] } ELSE {}
            [] OTHER -> {}
ThTInit(t) == ThInit
=============================================================================
