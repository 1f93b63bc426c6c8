------------------------------- MODULE FileSpec ------------------------------
(* Reading files.  A file's lines are its maximal runs up to and including  *)
(* a newline; what follows the last newline is a line if it is not empty.   *)
EXTENDS SeqCommon, Utf8
LOCAL Seqs == INSTANCE SequencesExt
NL == 10
Ends(s) == LET z == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : s[i] = NL)
           IN IF s = <<>> \/ s[Len(s)] = NL THEN z ELSE Append(z, Len(s))
Lens(s) == LET z == Ends(s) IN [k \in DOMAIN z |-> z[k] - (IF k = 1 THEN 0 ELSE z[k - 1])]
LineAt(s, k) == LET z == Ends(s) IN SubSeq(s, (IF k = 1 THEN 0 ELSE z[k - 1]) + 1, z[k])
HasZero(s) == \E i \in DOMAIN s : s[i] = 0
\* Every second line, for a reader that steps over the others without looking at them.
Skipped(s) == LET n == Len(Ends(s)) IN FlattenSeq([k \in 1..((n + 1) \div 2) |-> LineAt(s, 2 * k - 1)])
FJudge(o, a, x, r) ==
  LET s == a[1] n == Len(Ends(s))
  IN CASE o = "load" -> x = 0 /\ r = <<1>> \o s
       [] o = "loadtext" -> \* a zero byte in a text may be refused
            x = 0 /\ (IF Valid(s) THEN r = <<1>> \o s \/ (HasZero(s) /\ r = <<0>>) ELSE r = <<0>>)
       [] o = "loadtextz" -> \* the frozen edition: what is only structurally well-formed is left open
            x = 0 /\ (IF Valid(s) THEN r = <<1>> \o s \/ (HasZero(s) /\ r = <<0>>)
                      ELSE r = <<0>> \/ (r = <<1>> \o s /\ Seqs!FoldLeft(StepLax, 0, s) = 0))
       [] o = "mmap" -> x = 0 /\ (r = <<1>> \o s \/ (s = <<>> /\ r = <<0>>))     \* content form
       [] o \in {"lines", "readline", "peek"} -> x = 0 /\ r = <<n>> \o Lens(s) \o s   \* the loop, calls until the end, looking at each line twice
       [] o \in {"linesz", "readlinez"} -> \* the frozen edition: a zero byte ends an unfinished last line, an empty one follows a finished one
            x = 0 /\ r = IF s = <<>> \/ s[Len(s)] = NL THEN <<n + 1>> \o Lens(s) \o <<0>> \o s
                        ELSE <<n>> \o [k \in 1..n |-> Lens(s)[k] + (IF k = n THEN 1 ELSE 0)] \o s \o <<0>>
       [] o = "skip" -> x = 0 /\ r = Skipped(s)
       [] o = "eof" -> \* after reading that many lines
            x = 0 /\ r = << B(a[2] >= n) >>
       [] o = "absent" -> \* kind of reading, kind of thing: missing, directory
            IF a[1] \in {3, 4, 5} THEN x = 1 ELSE x = 0 /\ r = <<0>>
       [] OTHER -> FALSE
FAccept(st, e) == IF FJudge(e.o, e.a, e.x, e.r) THEN { [st |-> st, kf |-> ""] } ELSE {}
FInit == <<>>
FTInit(t) == FInit
=============================================================================
