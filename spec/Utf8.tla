-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 (Unicode chapter 3, D92 and table 3-7) as an encoding function and *)
(* as the equivalent acceptor.                                              *)
EXTENDS Integers, Sequences, SequencesExt

Scalar(cp) == cp >= 0 /\ cp <= 1114111 /\ ~(cp >= 55296 /\ cp <= 57343)
Encode(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN << 192 + cp \div 64, 128 + (cp % 64) >>
  ELSE IF cp < 65536 THEN << 224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64) >>
  ELSE << 240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64) >>
EncodeAll(cps) == FlattenSeq([i \in DOMAIN cps |-> Encode(cps[i])])

\* Acceptor: 0 = between characters, 1..3 = that many plain continuation bytes expected,
\* 4 = after E0, 5 = after ED, 6 = after F0, 7 = after F4, 9 = refused.
Step(q, b) ==
  IF q = 0 THEN
     (IF b < 128 THEN 0 ELSE IF b < 194 THEN 9 ELSE IF b < 224 THEN 1 ELSE IF b = 224 THEN 4 ELSE IF b = 237 THEN 5
      ELSE IF b < 240 THEN 2 ELSE IF b = 240 THEN 6 ELSE IF b < 244 THEN 3 ELSE IF b = 244 THEN 7 ELSE 9)
  ELSE IF q = 1 THEN (IF b \in 128..191 THEN 0 ELSE 9)
  ELSE IF q = 2 THEN (IF b \in 128..191 THEN 1 ELSE 9)
  ELSE IF q = 3 THEN (IF b \in 128..191 THEN 2 ELSE 9)
  ELSE IF q = 4 THEN (IF b \in 160..191 THEN 1 ELSE 9)
  ELSE IF q = 5 THEN (IF b \in 128..159 THEN 1 ELSE 9)
  ELSE IF q = 6 THEN (IF b \in 144..191 THEN 2 ELSE 9)
  ELSE IF q = 7 THEN (IF b \in 128..143 THEN 2 ELSE 9)
  ELSE 9
Valid(bytes) == FoldLeft(Step, 0, bytes) = 0

\* Of valid text: 0-based byte offsets of its code points, and the code points.
Starts(bytes) == SelectSeq([i \in 1..Len(bytes) |-> i - 1], LAMBDA k : bytes[k + 1] \div 64 # 2)
CpAt(bytes, k) ==
  LET b == bytes[k + 1]
      C(j) == bytes[k + 1 + j] % 64
  IN IF b < 128 THEN b
     ELSE IF b < 224 THEN (b % 32) * 64 + C(1)
     ELSE IF b < 240 THEN (b % 16) * 4096 + C(1) * 64 + C(2)
     ELSE (b % 8) * 262144 + C(1) * 4096 + C(2) * 64 + C(3)
Decode(bytes) == LET s == Starts(bytes) IN [i \in DOMAIN s |-> CpAt(bytes, s[i])]
IsBoundary(bytes, k) == k = Len(bytes) \/ (0 <= k /\ k < Len(bytes) /\ bytes[k + 1] \div 64 # 2)
\* The earlier edition checks the structure only: what well-formed text must be accepted and
\* structurally broken text refused; overlong forms, surrogates and values above 10FFFF are left open.
StepLax(q, b) ==
  IF q = 0 THEN (IF b < 128 THEN 0 ELSE IF b < 192 THEN 9 ELSE IF b < 224 THEN 1 ELSE IF b < 240 THEN 2 ELSE IF b < 248 THEN 3 ELSE 9)
  ELSE IF q \in 1..3 THEN (IF b \in 128..191 THEN q - 1 ELSE 9)
  ELSE 9
=============================================================================
