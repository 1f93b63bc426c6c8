-------------------------------- MODULE ArgMC --------------------------------
(* The reading of the tokens as a machine, on all short command lines over  *)
(* some tokens, against what a user relies on.                              *)
EXTENDS ArgSpec
CONSTANTS MaxLen, Small
O(n, s, l, ty, act, d) == [name |-> <<n>>, short |-> s, long |-> l, ty |-> ty, act |-> act, def |-> d, min |-> NoVal, max |-> NoVal]
LS == <<45, 45, 115>>  LI == <<45, 45, 105>>  LA == <<45, 45, 97>>
Decl == << O(1, 115, LS, 0, 0, <<0, 100>>), [O(2, 105, LI, 3, 0, NoVal) EXCEPT !.min = <<49>>], O(3, 97, LA, 1, 3, <<1, 100, 0>>), O(4, 116, <<>>, 2, 1, NoVal) >>
Toks == { LS, LS \o <<61, 120>>, <<45, 115, 120>>, LI, <<45, 105>>, <<50>>, <<48>>, <<120>>, <<45, 97, 120>>, <<45, 116>>, <<45, 45>>, <<45, 45, 104, 101, 108, 112>> }
        \cup (IF Small THEN {} ELSE { LA, <<45, 122>>, <<>>, <<45>>, LI \o <<61, 49>>, <<45, 116, 116>> })
VARIABLES s, toks, i, vals, reads, path
vars == <<s, toks, i, vals, reads, path>>
MInit == /\ s \in { [opts |-> Decl, pos |-> p] : p \in BOOLEAN }
         /\ toks \in UNION { [1..k -> Toks] : k \in 0..MaxLen }
         /\ i = 1 /\ vals = Defaults(s) /\ reads = {} /\ path = <<>>
Running == i > 0 /\ i <= Len(toks)
MNext == /\ Running
         /\ \E q \in ReadStep(s, toks, i, vals) :
              /\ i' = q.n /\ vals' = q.v
              /\ reads' = reads \cup (IF q.n > 0 THEN { j \in i..(q.n - 1) : TRUE } ELSE {i})
              /\ path' = Append(path, q.n)
         /\ UNCHANGED <<s, toks>>
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(MNext)
Within == reads \subseteq DOMAIN toks
Forward == [][i' > i \/ i' <= 0]_vars
Ends == <>~Running
Outcome == IF i = 0 THEN <<1>> ELSE IF i = -1 THEN <<2>> ELSE <<0>> \o vals
Sound == ~Running => Outcome \in Results(s, toks)
\* A text option's value is its default or what follows one of its occurrences; the last one wins.
LastWins == i = Len(toks) + 1 /\ Len(toks) >= 1 /\ toks[Len(toks)] = LS \o <<61, 120>> /\ ~(\E j \in DOMAIN toks : toks[j] = <<45, 45>>)
              /\ (Len(toks) = 1 \/ (Len(path) >= 2 /\ path[Len(path) - 1] = Len(toks))) => vals[1] = <<0, 120>>
\* Everything after a double dash is left alone.
Rest == ~Running /\ i # 0 /\ i # -1 /\ Len(toks) < MaxLen =>
          LET U == Results(s, Append(toks, <<45, 45>>)) \cup Results(s, toks \o << <<45, 45>>, <<45, 122>> >>)
          IN <<0>> \o vals \in U /\ \A r \in U : r = <<1>> \/ Results(s, toks) = {r} \/ (<<45>> \in { toks[j] : j \in DOMAIN toks } /\ r[1] = 0)
\* "--s=x" means "--s x".
Joined == Len(toks) >= 1 /\ i = 1 /\ toks[1] # <<>> =>
            Results(s, << LS \o <<61>> \o toks[1] >> \o Tail(toks)) = Results(s, <<LS>> \o toks)
\* Refusals stay refusals: nothing that follows helps.
Final == i = 0 => \A t \in Toks : <<1>> \in Results(s, Append(toks, t)) \/ (path[Len(path)] = 0 /\ toks[Len(toks)] \in {LS, LI, LA, <<45, 105>>})
Limits == i # 0 => vals[2] = NoVal \/ (vals[2] # NoVal /\ InLimits(s.opts[2], Tail(vals[2])))
=============================================================================
