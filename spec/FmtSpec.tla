------------------------------- MODULE FmtSpec -------------------------------
(* printf style formatting, clamping and the floating point orders.         *)
EXTENDS SeqCommon
NaN == 999999999
Inf == 1000000000
NegZero == 888888888
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000 [] k = 5 -> 100000
              [] k = 6 -> 1000000 [] k = 7 -> 10000000 [] k = 8 -> 100000000 [] OTHER -> 1000000000
Rep(c, n) == [i \in 1..n |-> c]
\* Digits of n >= 0 in base b given the number of digits.
NumDigits(n, b) == CHOOSE k \in 1..11 : (n \div (IF b = 10 THEN Pow10(k - 1) ELSE b ^ (k - 1))) < b
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Digits(n, b) == LET k == NumDigits(n, b) IN [i \in 1..k |-> Digit((n \div (IF b = 10 THEN Pow10(k - i) ELSE b ^ (k - i))) % b)]
Dec(n) == IF n < 0 THEN <<45>> \o Digits(-n, 10) ELSE Digits(n, 10)
PadL(t, w) == Rep(32, MaxI(0, w - Len(t))) \o t
PadR(t, w) == t \o Rep(32, MaxI(0, w - Len(t)))
PadZ(n, w) == IF n < 0 THEN <<45>> \o Rep(48, MaxI(0, w - Len(Dec(n)))) \o Digits(-n, 10)
              ELSE Rep(48, MaxI(0, w - Len(Dec(n)))) \o Dec(n)
Plain == <<112, 108, 97, 105, 110>>
Text(k, s, n, m) ==
  CASE k = 0 -> s                                                  \* %s
    [] k = 1 -> s \o Dec(n)                                        \* %s%d
    [] k = 2 -> <<91>> \o Dec(n) \o <<93, 37>> \o s                \* [%d]%%%s
    [] k = 3 -> PadL(Dec(n), m) \o <<124>> \o PadR(Dec(n), m) \o <<124>> \o PadZ(n, m)   \* %*d|%-*d|%0*d
    [] k = 4 -> <<n>> \o s                                         \* %c%s
    [] k = 5 -> SubSeq(s, 1, MinI(m, Len(s)))                      \* %.*s
    [] k = 6 -> Digits(n, 16) \o <<32>> \o Digits(n, 8) \o <<32>> \o Digits(n, 10)   \* %x %o %u
    [] k = 7 -> Plain                                              \* plain
    [] k = 8 -> s \o s \o s                                        \* %s%s%s
    [] OTHER -> <<>>                                               \* (empty format)
Num(c) == IF c = NegZero THEN 0 ELSE c
\* Not-a-number is above everything.
Rank(c) == IF c = NaN THEN Inf + 1 ELSE Num(c)
Same(c, d) == IF c = d THEN TRUE ELSE Num(c) = Num(d)
FJudge(o, a, x, r) ==
  CASE o = "fmt" -> \* template target existing s n m
       LET t == Text(a[1], a[4], a[5], a[6])
           full == IF a[2] \in {1, 2, 3} THEN a[3] \o t ELSE t
       IN IF a[2] \in {0, 1} /\ (\E i \in 1..Len(t) : t[i] = 0) THEN x = 1
          ELSE x = 0 /\ r = IF a[2] = 4 THEN full \o <<1>> ELSE full
    [] o = "iclamp" -> x = 0 /\ r = << IF a[1] < a[2] THEN a[2] ELSE IF a[1] > a[3] THEN a[3] ELSE a[1] >>
    [] o = "fclamp" ->
       /\ x = 0
       /\ IF NaN \in {a[1], a[2], a[3]} THEN r = <<NaN>>
          ELSE Same(r[1], IF Num(a[1]) < Num(a[2]) THEN a[2] ELSE IF Num(a[1]) > Num(a[3]) THEN a[3] ELSE a[1])
    [] o = "fcmp" -> \* comparator type a b
       /\ x = 0
       /\ r = << Sgn(Rank(a[3]) - Rank(a[4])), B(Rank(a[3]) = Rank(a[4])) >>
    [] o = "fsort" -> \* alg comparator type codes
       LET s == a[4]
           Cnt(q, c) == Cardinality({ i \in 1..Len(q) : q[i] = c })
       IN /\ x = 0 /\ Len(r) = Len(s)
          /\ \A i \in 1..(Len(r) - 1) : Rank(r[i]) <= Rank(r[i + 1])
          /\ \A i \in 1..Len(r) : Cnt(r, r[i]) = Cnt(s, r[i])
    [] OTHER -> FALSE
FAccept(st, e) == IF FJudge(e.o, e.a, e.x, e.r) THEN { [st |-> st, kf |-> ""] } ELSE {}
FInit == <<>>
FTInit(t) == FInit
=============================================================================
