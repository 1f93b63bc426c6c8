---- MODULE RangeGen ----
EXTENDS RangeSpec, GenBase
Op(n, a) == [o |-> n, a |-> a]
Edge == {-Limit, (-Limit) + 1, -3, 0, 2, 7, Limit - 2, Limit}
RGenOps(s) == IF hist = <<>>
  THEN << { Op("mk", <<b, e, t, 3>>) : b \in Edge, e \in Edge, t \in {-2, -1, 0, 1, 3} },
          { Op("mk", <<b, e, 1, 2>>) : b \in {-3, 0, 2}, e \in {-3, 2, 4} },
          { Op("mk", <<0, e, 1, 1>>) : e \in {-3, 0, 4} },
          { Op("mk", <<b, e, Limit, 3>>) : b \in {0, 2, Limit - 2}, e \in {-3, 0, 7, Limit} },
          { Op("mk", <<b, e, -Limit, 3>>) : b \in {-3, 0, 2, (-Limit) + 1}, e \in {-Limit, -3, 0, 7} } >>
  ELSE << { Op("next", <<>>), Op("copy", <<>>) },
          IF s[3] \in -100..100 /\ s[1] \in -100..100 /\ s[2] \in -100..100 THEN { Op("loop", <<>>), Op("loopsume", <<>>) } ELSE {} >>
RGInv(s) == s[3] # 0
====
