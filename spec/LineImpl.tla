------------------------------- MODULE LineImpl ------------------------------
(* The line iterator as a machine over a stdio-like stream: an end-of-file  *)
(* flag is only raised by a read that finds nothing.  The loop              *)
(* (check, read a line, step) must visit exactly the lines, for every file. *)
EXTENDS FileSpec
CONSTANTS MaxLen, Alphabet, LookAhead
VARIABLES s, pos, flag, pc, line, out
vars == <<s, pos, flag, pc, line, out>>
LInit == /\ s \in UNION { [1..k -> Alphabet] : k \in 0..MaxLen }
         /\ pos = 0 /\ flag = FALSE /\ pc = "check" /\ line = <<>> /\ out = <<>>
\* Is there anything left?  The flag alone answers too late.
AtEnd == IF LookAhead THEN pos = Len(s) ELSE flag
Check == /\ pc = "check"
         /\ pc' = IF AtEnd THEN "done" ELSE "read"
         /\ UNCHANGED <<s, pos, flag, line, out>>
Read == /\ pc = "read"
        /\ IF pos = Len(s)
           THEN flag' = TRUE /\ out' = Append(out, line) /\ line' = <<>> /\ pc' = "check" /\ UNCHANGED pos
           ELSE /\ pos' = pos + 1
                /\ IF s[pos + 1] = NL
                   THEN out' = Append(out, Append(line, NL)) /\ line' = <<>> /\ pc' = "check"
                   ELSE line' = Append(line, s[pos + 1]) /\ UNCHANGED <<out, pc>>
                /\ UNCHANGED flag
        /\ UNCHANGED s
LNext == Check \/ Read
LSpec == LInit /\ [][LNext]_vars /\ WF_vars(LNext)
Exactly == pc = "done" => out = [k \in DOMAIN Ends(s) |-> LineAt(s, k)]
Prefix == \A k \in DOMAIN out : k <= Len(Ends(s)) /\ out[k] = LineAt(s, k)
Terminates == <>(pc = "done")
=============================================================================
