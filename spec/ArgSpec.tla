------------------------------- MODULE ArgSpec -------------------------------
(* The command line parser.                                                 *)
(* State: the declared options and whether positional arguments are         *)
(* permitted.  An option: name, short (0 none), long (<<>> none), ty (0     *)
(* text, 1 list of texts, 2 boolean, 3 integer), act (0 store, 1 set, 2     *)
(* clear, 3 append), def (its default, NoVal if none), and the limits of an *)
(* integer.  Integers are decimal texts (they are 64 bits wide).            *)
(* A value is <<type, bytes...>>; texts of a list end in a zero each.       *)
EXTENDS SeqCommon
Dash == 45
NoVal == <<>>
\* Tokens from their bytes, each ended by a zero.
Tokens(t) ==
  LET z == SelectSeq([i \in DOMAIN t |-> i], LAMBDA i : t[i] = 0)
  IN [k \in DOMAIN z |-> SubSeq(t, (IF k = 1 THEN 0 ELSE z[k - 1]) + 1, z[k] - 1)]
\* ---- decimal texts
Blank(c) == c = 32 \/ c \in 9..13
Digit(c) == c \in 48..57
RECURSIVE Lstrip(_), Zstrip(_)
Lstrip(t) == IF t # <<>> /\ Blank(t[1]) THEN Lstrip(Tail(t)) ELSE t
Zstrip(t) == IF Len(t) > 1 /\ t[1] = 48 THEN Zstrip(Tail(t)) ELSE t
Body(t) == LET u == Lstrip(t) IN IF u # <<>> /\ u[1] \in {43, Dash} THEN Tail(u) ELSE u
WellFormed(t) == LET d == Body(t) IN d # <<>> /\ \A i \in DOMAIN d : Digit(d[i])
Canon(t) == LET d == Zstrip(Body(t)) u == Lstrip(t) IN IF u[1] = Dash /\ d # <<48>> THEN <<Dash>> \o d ELSE d
Neg(n) == n[1] = Dash
MagCmp(a, b) == IF Len(a) # Len(b) THEN Sgn(Len(a) - Len(b)) ELSE LexCmp(a, b)
\* a <= b for canonical texts
Leq(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE IF Neg(a) THEN MagCmp(a, b) >= 0 ELSE MagCmp(a, b) <= 0
Min64 == <<45, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>
Max64 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
\* Accepted by some readers of numbers and refused by others.
Loose(t) == t # <<>> /\ (Blank(t[1]) \/ t[1] = 43 \/ Blank(t[Len(t)]))
InLimits(o, n) == Leq(Min64, n) /\ Leq(n, Max64) /\ (o.min = NoVal \/ Leq(o.min, n)) /\ (o.max = NoVal \/ Leq(n, o.max))
Needs(o) == o.act \in {0, 3}
\* The values option o may have after an occurrence with text t, given the value v before it (9: refused).
Err == 9
Update(o, v, t) ==
  CASE o.act = 1 -> { <<2, 1>> }
    [] o.act = 2 -> { <<2, 0>> }
    [] o.act = 3 -> { (IF v = NoVal THEN <<1>> ELSE v) \o t \o <<0>> }
    [] o.ty = 0 -> { <<0>> \o t }
    [] o.ty = 1 -> { <<1>> \o t \o <<0>> }
    [] o.ty = 3 -> (IF WellFormed(t) /\ InLimits(o, Canon(t)) THEN { <<3>> \o Canon(t) } ELSE {})
                   \cup (IF ~WellFormed(t) \/ ~InLimits(o, Canon(t)) \/ Loose(t) THEN { <<Err>> } ELSE {})
                   \cup (IF Loose(t) /\ t[Len(t)] \in {32, 9, 10} /\ WellFormed(SubSeq(t, 1, Len(t) - 1)) /\ InLimits(o, Canon(SubSeq(t, 1, Len(t) - 1)))
                         THEN { <<3>> \o Canon(SubSeq(t, 1, Len(t) - 1)) } ELSE {})
    [] OTHER -> {}
Long(s, k) == { i \in DOMAIN s.opts : s.opts[i].long = k }
Short(s, c) == { i \in DOMAIN s.opts : s.opts[i].short = c }
Eq(t) == IF \E i \in DOMAIN t : t[i] = 61 THEN CHOOSE i \in DOMAIN t : t[i] = 61 /\ \A j \in 1..(i - 1) : t[j] # 61 ELSE 0
Help == { <<45, 104>>, <<45, 45, 104, 101, 108, 112>> }
\* One step of reading: the set of [v: values, n: next position] (n = 0: refused, -1: help, Len + 1: done).
Refuse(vals) == { [v |-> vals, n |-> 0] }
Take(s, vals, k, t, n) == { IF w = <<Err>> THEN [v |-> vals, n |-> 0] ELSE [v |-> [vals EXCEPT ![k] = w], n |-> n] : w \in Update(s.opts[k], vals[k], t) }
ReadStep(s, toks, i, vals) ==
  LET t == toks[i]
      e == Eq(t)
      key == IF e = 0 THEN t ELSE SubSeq(t, 1, e - 1)
      Next(k) == IF i = Len(toks) THEN Refuse(vals) ELSE Take(s, vals, k, toks[i + 1], i + 2)
  IN IF t = <<>> THEN Refuse(vals)
     ELSE IF t \in Help THEN { [v |-> vals, n |-> -1] }
     ELSE IF t = <<Dash, Dash>> THEN { [v |-> vals, n |-> Len(toks) + 1] }
     ELSE IF Len(t) >= 2 /\ t[1] = Dash /\ t[2] = Dash
     THEN IF Long(s, key) = {} THEN Refuse(vals)
          ELSE LET k == CHOOSE k \in Long(s, key) : TRUE
               IN IF ~Needs(s.opts[k]) THEN (IF e = 0 THEN Take(s, vals, k, <<>>, i + 1) ELSE Refuse(vals))
                  ELSE IF e # 0 THEN Take(s, vals, k, SubSeq(t, e + 1, Len(t)), i + 1) \cup (IF e = Len(t) THEN Refuse(vals) ELSE {})   \* an empty value may be refused
                  ELSE Next(k)
     ELSE IF t = <<Dash>> THEN Refuse(vals) \cup (IF s.pos THEN { [v |-> vals, n |-> i + 1] } ELSE {})
     ELSE IF t[1] = Dash
     THEN IF Short(s, t[2]) = {} THEN Refuse(vals)
          ELSE LET k == CHOOSE k \in Short(s, t[2]) : TRUE
               IN IF ~Needs(s.opts[k]) THEN (IF Len(t) = 2 THEN Take(s, vals, k, <<>>, i + 1) ELSE Refuse(vals))
                  ELSE IF Len(t) = 2 THEN Next(k)
                  ELSE Take(s, vals, k, SubSeq(t, 3, Len(t)), i + 1)
                       \cup (IF t[3] = 61 THEN Take(s, vals, k, SubSeq(t, 4, Len(t)), i + 1) ELSE {})
     ELSE IF s.pos THEN { [v |-> vals, n |-> i + 1] } ELSE Refuse(vals)
\* All results of reading the tokens from position i.
RECURSIVE Read(_, _, _, _)
Read(s, toks, i, vals) ==
  IF i = 0 THEN { <<1>> } ELSE IF i = -1 THEN { <<2>> } ELSE IF i > Len(toks) THEN { <<0>> \o vals }
  ELSE UNION { Read(s, toks, q.n, q.v) : q \in ReadStep(s, toks, i, vals) }
Defaults(s) == [k \in DOMAIN s.opts |-> s.opts[k].def]
Results(s, toks) == Read(s, toks, 1, Defaults(s))
Clash(s, o) == \E i \in DOMAIN s.opts : s.opts[i].name = o.name \/ (o.long # <<>> /\ o.long = s.opts[i].long) \/ (o.short # 0 /\ o.short = s.opts[i].short)
AgInit == [opts |-> <<>>, pos |-> FALSE]
AgTInit(t) == AgInit
MkOpt(a) == [name |-> a[1], short |-> a[2], long |-> a[3], ty |-> a[4], act |-> a[5], def |-> a[6], min |-> a[7], max |-> a[8]]
AgAccept(s, e) ==
  LET Same == { [st |-> s, kf |-> ""] }
  IN CASE e.o = "add" -> LET o == MkOpt(e.a) IN IF Clash(s, o) THEN (IF e.x = 1 THEN Same ELSE {})
                         ELSE IF e.x = 0 THEN { [st |-> [s EXCEPT !.opts = Append(@, o)], kf |-> ""] } ELSE {}
       [] e.o = "permit" -> IF e.x = 0 THEN { [st |-> [s EXCEPT !.pos = TRUE], kf |-> ""] } ELSE {}
       [] e.o = "parse" -> IF e.x = 0 /\ e.r \in Results(s, Tokens(e.a[1])) THEN Same ELSE {}
       [] e.o = "again" -> \* a second parse after a first one that may have ended in any way
            IF e.x = 0 /\ (e.r \in Results(s, Tokens(e.a[2])) \/ (Len(e.r) = 1 /\ e.r[1] # 0 /\ e.r \in Results(s, Tokens(e.a[1])))) THEN Same ELSE {}
       [] OTHER -> {}
=============================================================================
