---- MODULE RegexGen ----
EXTENDS RegexSets, GenBase
CONSTANTS Size, Subjects
Op(n, a) == [o |-> n, a |-> a]
RgGenOps(s) == << UNION { { Op("search", << Render(Tree(t)), t, u, 0>>) : t \in Pats(k), u \in Subjects } : k \in 1..Size } >>
RgOutcomes(s, o, a) == { Ok(s, <<>>) }
RgInv(s) == TRUE
Few == { <<>>, <<97>>, <<98, 97>>, <<97, 98>>, <<97, 97, 98>>, <<97, 10>>, <<98, 97, 98, 97>> }
====
