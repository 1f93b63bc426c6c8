------------------------------ MODULE UBlkSpec ------------------------------
(* Block events: one event covers 256 byte strings or 256 code points.      *)
EXTENDS SeqCommon, Utf8, SequencesExt
Bytes256 == [i \in 1..256 |-> i - 1]
Ends(F(_, _), pre, b, post) == FoldLeft(F, F(FoldLeft(F, 0, pre), b), post) = 0

KOutcomes(st, o, a) ==
  CASE o = "acc" -> LET q == FoldLeft(Step, 0, a[1])
                        Fin(b) == FoldLeft(Step, Step(q, b), a[2]) = 0
                    IN { Ok(st, SelectSeq(Bytes256, Fin)) }
    [] o = "enc" -> { Ok(st, FlattenSeq([i \in 1..256 |-> LET cp == a[1] + i - 1
                                                         IN IF cp # 0 /\ Scalar(cp) THEN Append(Encode(cp), 0) ELSE <<0>>])) }
    [] OTHER -> {}
NoProj(s) == <<>>
LaxOk(e) == /\ e.x = 0
            /\ \A b \in 1..255 : Ends(Step, e.a[1], b, e.a[2]) => \E i \in DOMAIN e.r : e.r[i] = b
            /\ \A i \in DOMAIN e.r : e.r[i] \in 1..255 /\ Ends(StepLax, e.a[1], e.r[i], e.a[2])
KAccept(s, e) == IF e.o = "acclax" THEN (IF LaxOk(e) THEN {[st |-> s, kf |-> ""]} ELSE {}) ELSE StdAccept(KOutcomes(s, e.o, e.a), e, NoProj)
KTInit(t) == <<>>
=============================================================================
