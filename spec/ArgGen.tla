---- MODULE ArgGen ----
(* Four declarations, then positional arguments are permitted or not, then  *)
(* every short command line.                                                *)
EXTENDS ArgSpec, GenBase
CONSTANTS MaxT
Op(n, a) == [o |-> n, a |-> a]
A(n, s, l, ty, act, d, mn, mx) == <<n, s, l, ty, act, d, mn, mx>>
LS == <<45, 45, 115>>  LI == <<45, 45, 105, 110>>  LA == <<45, 45, 97>> LF == <<45, 45, 102>>
D1 == << A(<<1>>, 115, LS, 0, 0, <<0, 100>>, NoVal, NoVal), A(<<2>>, 105, LI, 3, 0, NoVal, <<45, 49>>, <<49, 48>>),
         A(<<3>>, 97, LA, 1, 3, <<1, 100, 0>>, NoVal, NoVal), A(<<4>>, 102, LF, 2, 1, NoVal, NoVal, NoVal) >>
D2 == << A(<<1>>, 0, LS, 1, 0, <<1>>, NoVal, NoVal), A(<<2>>, 105, <<>>, 3, 0, <<3, 55>>, NoVal, NoVal),
         A(<<3>>, 97, LA, 1, 3, NoVal, NoVal, NoVal), A(<<4>>, 0, LF, 2, 2, <<2, 1>>, NoVal, NoVal) >>
D(k) == IF k = 1 THEN D1 ELSE D2
Toks == { LS, LS \o <<61, 120>>, LS \o <<61>>, LS \o <<113>>, <<45, 115>>, <<45, 115, 120>>, LI, LI \o <<61, 57>>, <<45, 105>>, <<45, 105, 45, 49>>, <<45, 105, 49, 49>>, <<45, 105, 49, 120>>,
          <<45, 105, 61, 53>>, <<50>>, <<120>>, LA, <<45, 97, 121>>, LA \o <<61, 61>>, LF, LF \o <<61, 49>>, <<45, 102>>, <<45, 102, 102>>, <<45, 45>>, <<45>>, <<>>, <<45, 122>>, <<45, 104>> }
Flat(ts) == LET RECURSIVE Go(_)
                Go(k) == IF k > Len(ts) THEN <<>> ELSE ts[k] \o <<0>> \o Go(k + 1)
            IN Go(1)
AgGenOps(s) ==
  LET n == Len(hist)
      k == IF n = 0 THEN 0 ELSE IF hist[1][2] = D1[1] THEN 1 ELSE 2
  IN IF n = 0 THEN << { Op("add", D1[1]), Op("add", D2[1]) } >>
     ELSE IF n < 4 THEN << { Op("add", D(k)[n + 1]) } >>
     ELSE IF n = 4 THEN << { Op("permit", <<>>) }, { Op("add", D(k)[1]) } >>
     ELSE << { Op("parse", << Flat(t) >>) : t \in UNION { [1..j -> Toks] : j \in 0..MaxT } } >>
AgOutcomes(s, o, a) == IF o = "add" THEN { IF Clash(s, MkOpt(a)) THEN Exc(s) ELSE Ok([s EXCEPT !.opts = Append(@, MkOpt(a))], <<>>) }
                       ELSE IF o = "permit" THEN { Ok([s EXCEPT !.pos = TRUE], <<>>) } ELSE { Ok(s, <<>>) }
AgInv(s) == \A i, j \in DOMAIN s.opts : i # j => s.opts[i].name # s.opts[j].name
====
