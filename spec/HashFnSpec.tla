------------------------------ MODULE HashFnSpec -----------------------------
(* The default hash function, h := 13 h xor byte modulo 2^64 from 0, and    *)
(* what the library's types feed to a hash: integers their bytes, texts     *)
(* exactly their text, whatever object holds it.  64 bit numbers are four   *)
(* 16 bit limbs, the highest first.                                         *)
EXTENDS SeqCommon, Bitwise
LOCAL Seqs == INSTANCE SequencesExt
Mul13(h) ==
  LET t0 == h[4] * 13
      t1 == h[3] * 13 + (t0 \div 65536)
      t2 == h[2] * 13 + (t1 \div 65536)
      t3 == h[1] * 13 + (t2 \div 65536)
  IN << t3 % 65536, t2 % 65536, t1 % 65536, t0 % 65536 >>
Feed1(h, b) == LET m == Mul13(h) IN << m[1], m[2], m[3], (m[4] \div 256) * 256 + ((m[4] % 256) ^^ b) >>
Zero64 == <<0, 0, 0, 0>>
FeedFrom(h, s) == Seqs!FoldLeft(Feed1, h, s)
HashOf(s) == FeedFrom(Zero64, s)
\* Byte k (from the lowest) of the two's complement representation.
ByteOf(v, k) == LET u == IF v < 0 THEN -1 - v ELSE v
                    q == CASE k = 0 -> u % 256 [] k = 1 -> (u \div 256) % 256 [] k = 2 -> (u \div 65536) % 256
                           [] k = 3 -> (u \div 16777216) % 256 [] OTHER -> 0
                IN IF v < 0 THEN 255 - q ELSE q
Bytes(v, n) == [k \in 1..n |-> ByteOf(v, k - 1)]
HJudge(o, a, x, r) ==
  CASE o = "bytes" -> x = 0 /\ r = HashOf(a[1])                      \* data, cut points
    [] o = "prim" -> x = 0 /\ r = FeedFrom(HashOf(a[3]), Bytes(a[2], a[1])) \o Bytes(a[2], a[1])   \* width value prefix
    [] o = "obj" -> x = 0 /\ r = HashOf(a[2]) \o a[2]                \* kind text surroundings
    \* The frozen edition has no other hash to feed, and its texts end with a zero byte.
    [] o = "primz" -> x = 0 /\ r = FeedFrom(HashOf(a[3]), Bytes(a[2], a[1]))
    [] o = "objz" -> x = 0 /\ r = HashOf(IF a[1] \in {5, 8} THEN a[2] ELSE a[2] \o <<0>>)
    [] o = "reset" -> x = 0 /\ r = HashOf(a[2])                      \* before after
    [] OTHER -> FALSE
HAccept(st, e) == IF HJudge(e.o, e.a, e.x, e.r) THEN { [st |-> st, kf |-> ""] } ELSE {}
HInit == <<>>
HTInit(t) == HInit
=============================================================================
