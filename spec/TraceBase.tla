----------------------------- MODULE TraceBase -----------------------------
(* Generic trace validation.  A recorded run of the real library is a       *)
(* sequence of scenarios; a scenario is a sequence of events                *)
(*   [o |-> operation, a |-> arguments, x |-> ending, r |-> result,         *)
(*    p |-> projection of the concrete state after the operation]           *)
(* x: 0 returned, 1 library exception, 2 process died / memory error,       *)
(*    3 foreign exception, 4 did not terminate, 5 process exit.             *)
(* A component specification supplies InitSt and Accept(st, e): the set of  *)
(* [st, kf] successor states the specification allows for the event; kf is  *)
(* "" or the name of a known finding that explains the deviation.  A        *)
(* scenario conforms iff some behaviour of the specification consumes all   *)
(* of its events.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitSt(_), Accept(_, _)

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES sid, l, st, res

TInit == /\ sid \in 1..Len(Traces)
         /\ l = 1
         /\ st = InitSt(Traces[sid])
         /\ res = "run"

TNext ==
  /\ res = "run"
  /\ LET ev == Traces[sid].ev
     IN  IF l > Len(ev)
         THEN /\ res' = "done"
              /\ UNCHANGED <<sid, l, st>>
              /\ PrintT(<<"DONE", Traces[sid].id>>)
         ELSE LET e   == ev[l]
                  acc == Accept(st, e)
              IN  IF acc = {}
                  THEN /\ res' = "bad"
                       /\ UNCHANGED <<sid, l, st>>
                       /\ PrintT(<<"MISMATCH", Traces[sid].id, l, st>>)
                  ELSE \E n \in acc :
                         /\ st' = n.st
                         /\ l' = l + 1
                         /\ UNCHANGED <<sid, res>>
                         /\ (n.kf = "" \/ PrintT(<<"KNOWN", n.kf, Traces[sid].id, l>>))

TSpec == TInit /\ [][TNext]_<<sid, l, st, res>>
=============================================================================
