------------------------------ MODULE CaseSpec ------------------------------
(* Full default case mappings of single code points (CaseData: sequences of *)
(* <<code point, mapping>>, from the Unicode character database).           *)
EXTENDS SeqCommon, Utf8, SequencesExt, CaseData

InTab(tab, base) == SelectSeq(tab, LAMBDA p : p[1] >= base /\ p[1] < base + 256)
MapIn(part, cp) == LET m == {i \in DOMAIN part : part[i][1] = cp}
                   IN IF m = {} THEN <<cp>> ELSE part[CHOOSE i \in m : TRUE][2]
UpperOf(cp) == MapIn(InTab(UpTab, cp), cp)
LowerOf(cp) == MapIn(InTab(LowTab, cp), cp)
Letter(cp) == cp # 0 /\ Scalar(cp)
KOutcomes(st, o, a) ==
  CASE o = "case" -> LET u == InTab(UpTab, a[1])
                         l == InTab(LowTab, a[1])
                     IN { Ok(st, FlattenSeq([i \in 1..256 |-> LET cp == a[1] + i - 1
                            IN IF Letter(cp) THEN MapIn(u, cp) \o <<0>> \o MapIn(l, cp) \o <<0>> ELSE <<>>])) }
    [] o = "casestr" -> LET d == Decode(a[1])
                        IN { Ok(st, EncodeAll(FlattenSeq([i \in DOMAIN d |-> UpperOf(d[i])])) \o <<0>>
                                    \o EncodeAll(FlattenSeq([i \in DOMAIN d |-> LowerOf(d[i])])) \o <<0>>) }
    [] OTHER -> {}
NoProj(s) == <<>>
KAccept(s, e) == StdAccept(KOutcomes(s, e.o, e.a), e, NoProj)
KTInit(t) == <<>>
=============================================================================
