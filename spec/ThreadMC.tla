------------------------------- MODULE ThreadMC ------------------------------
(* All interleavings of a few threads, each adding to data it reads and     *)
(* writes in two separate steps under a mutex, some with try, some with two *)
(* mutexes one inside the other; main starts and joins them.                *)
EXTENDS ThreadSpec, TLC
CONSTANTS Threads, Rounds
VARIABLES s, pc, seen, done, tried, main
vars == <<s, pc, seen, done, tried, main>>
\* Programs: thread 2 uses lock, thread 3 try, thread 4 a guard on mutex 1 with a guard on mutex 2 inside.
Prog(t) == IF t = 3 THEN << <<3, 1>>, <<20, 1>>, <<21, 1>>, <<2, 1>> >>
           ELSE IF t = 4 THEN << <<4, 1>>, <<4, 2>>, <<20, 2>>, <<21, 2>>, <<5, 2>>, <<20, 1>>, <<21, 1>>, <<6, 1>> >>
           ELSE << <<1, 1>>, <<20, 1>>, <<21, 1>>, <<2, 1>> >>
MInit == s = ThInit /\ pc = [t \in Threads |-> 0] /\ seen = [t \in Threads |-> 0] /\ done = [t \in Threads |-> 0] /\ tried = 0
         /\ main = "start"
One(q) == CHOOSE x \in q : TRUE
Instr(t) == Prog(t)[((pc[t] - 1) % Len(Prog(t))) + 1]
Start == /\ main = "start"
         /\ s' = [s EXCEPT !.th = [t \in 1..NT |-> IF t \in Threads THEN 1 ELSE @[t]], !.hd = [t \in 1..NT |-> IF t \in Threads THEN 1 ELSE @[t]]]
         /\ main' = "join" /\ UNCHANGED <<pc, seen, done, tried>>
Begin(t) == s.th[t] = 1 /\ pc[t] = 0 /\ s' = One(Rec(s, <<4, t, 0>>)) /\ pc' = [pc EXCEPT ![t] = 1] /\ UNCHANGED <<seen, done, tried, main>>
Over1(t) == pc[t] > Rounds * Len(Prog(t))
Call(t) == /\ pc[t] > 0 /\ ~Over1(t) /\ Instr(t)[1] < 20 /\ s.call[t].op = 0
           /\ s' = One(Rec(s, <<0, t, Instr(t)[1], Instr(t)[2]>>)) /\ UNCHANGED <<pc, seen, done, tried, main>>
Works(t) == \E q \in Effect(s, t) : s' = q /\ UNCHANGED <<pc, seen, done, tried, main>>
Return(t) == /\ s.call[t].done
             /\ s' = [s EXCEPT !.call[t] = Idle]
             /\ IF s.call[t].op = 3 /\ s.call[t].res = 0
                THEN pc' = [pc EXCEPT ![t] = @ + Len(Prog(t))] /\ tried' = tried + 1   \* failed: skip the section
                ELSE pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED tried
             /\ UNCHANGED <<seen, done, main>>
Read(t) == /\ pc[t] > 0 /\ ~Over1(t) /\ Instr(t)[1] = 20 /\ s.call[t].op = 0
           /\ seen' = [seen EXCEPT ![t] = s.val[Instr(t)[2]]] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<s, done, tried, main>>
Write(t) == /\ pc[t] > 0 /\ ~Over1(t) /\ Instr(t)[1] = 21
            /\ s' = [s EXCEPT !.val[Instr(t)[2]] = seen[t] + 1]
            /\ done' = [done EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<seen, tried, main>>
Leave(t) == Over1(t) /\ s.th[t] = 2 /\ s' = One(Rec(s, <<5, t>>)) /\ UNCHANGED <<pc, seen, done, tried, main>>
Join == /\ main = "join" /\ \E t \in Threads : s.hd[t] = 1 /\ Rec(s, <<6, t>>) # {} /\ s' = One(Rec(s, <<6, t>>))
        /\ UNCHANGED <<pc, seen, done, tried, main>>
MNext == Start \/ Join \/ \E t \in Threads : Begin(t) \/ Call(t) \/ Works(t) \/ Return(t) \/ Read(t) \/ Write(t) \/ Leave(t)
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(Start) /\ WF_vars(Join) /\ \A t \in Threads : WF_vars(Begin(t)) /\ WF_vars(Call(t)) /\ SF_vars(Works(t)) /\ WF_vars(Return(t)) /\ WF_vars(Read(t)) /\ WF_vars(Write(t)) /\ WF_vars(Leave(t))
\* Who is between the return of an acquisition and the call of the release.
Inside(t) == pc[t] > 0 /\ ~Over1(t) /\ Instr(t)[1] \in {20, 21}
Exclusive == \A t, u \in Threads : t # u /\ Inside(t) /\ Inside(u) => Instr(t)[2] # Instr(u)[2]
WriteHolds == \A t \in Threads : Inside(t) => Holds(s, t, Instr(t)[2])
RECURSIVE Sum(_)
Sum(ts) == IF ts = {} THEN 0 ELSE LET t == CHOOSE t \in ts : TRUE IN done[t] + Sum(ts \ {t})
NoLostUpdate == s.val[1] + s.val[2] = Sum(Threads)
Joined == \A t \in Threads : s.hd[t] = 2 => s.th[t] = 3
Ends == <>(\A t \in Threads : s.hd[t] = 2)
=============================================================================
