------------------------------- MODULE Order --------------------------------
(* Comparison of byte arrays (include/arrcmp.hpp). The code consumes the two  *)
(* arrays block by block: a block of at most Word bytes is compared as one    *)
(* big-endian number, a larger one (a vector register of at most Vec bytes)   *)
(* by locating the first differing byte. The design model shows that this is  *)
(* the unsigned lexicographic order for every split into blocks.              *)
EXTENDS Base
CONSTANTS Bytes, MaxN, Word, Vec

VARIABLES a, b, pos, res
vars == <<a, b, pos, res>>

RECURSIVE FirstDiff(_, _, _)
FirstDiff(x, y, k) == IF k > Len(x) THEN 0 ELSE IF x[k] # y[k] THEN k ELSE FirstDiff(x, y, k + 1)
Lex(x, y) == LET k == FirstDiff(x, y, 1) IN IF k = 0 THEN 0 ELSE IF x[k] < y[k] THEN -1 ELSE 1

RECURSIVE BigEndian(_)
BigEndian(s) == IF s = <<>> THEN 0 ELSE BigEndian(SubSeq(s, 1, Len(s) - 1)) * 256 + s[Len(s)]
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

Pow2Floor(n) == CHOOSE p \in {1, 2, 4, 8, 16, 32, 64} : p <= n /\ 2 * p > n
BlockSize(left) == IF left > Word THEN Min(Pow2Floor(left), Vec) ELSE Pow2Floor(left)

CompareBlock(x, y) ==
  IF Len(x) <= Word THEN Sign(BigEndian(x) - BigEndian(y))
  ELSE LET D == {k \in 1..Len(x) : x[k] # y[k]} IN
       IF D = {} THEN 0 ELSE LET k == CHOOSE k \in D : \A m \in D : k <= m IN Sign(x[k] - y[k])

Init == /\ \E n \in 0..MaxN : a \in [1..n -> Bytes] /\ b \in [1..n -> Bytes]
        /\ pos = 0 /\ res = 2      \* 2: still comparing
Block == /\ res = 2 /\ pos < Len(a)
         /\ LET s == BlockSize(Len(a) - pos)
                c == CompareBlock(SubSeq(a, pos + 1, pos + s), SubSeq(b, pos + 1, pos + s)) IN
              IF c # 0 THEN res' = c /\ pos' = pos ELSE res' = 2 /\ pos' = pos + s
         /\ UNCHANGED <<a, b>>
AllEqual == res = 2 /\ pos = Len(a) /\ res' = 0 /\ UNCHANGED <<a, b, pos>>
Next == Block \/ AllEqual
Spec == Init /\ [][Next]_vars

Correct == res # 2 => res = Lex(a, b)
EqualSoFar == res = 2 => \A k \in 1..pos : a[k] = b[k]
(* Lex is a total order: antisymmetric (and transitive, below) *)
Antisymmetric == res # 2 => Lex(b, a) = 0 - Lex(a, b)
Transitive == \A x \in [1..2 -> Bytes] : (Len(a) = 2 /\ Lex(a, b) < 1 /\ Lex(b, x) < 1) => Lex(a, x) < 1

(* scenarios: the length, the first byte which differs, the two values there *)
(* and what follows: the same bytes (0), bytes in the opposite order (1),    *)
(* anything (2)                                                              *)
GenInit == /\ a = <<>> /\ b = <<>> /\ pos = 0 /\ res = 0
           /\ \A n \in 0..130 : \A k \in 1..(n + 1) :
                LET V == IF k = n + 1 THEN {<<0, 0>>}
                         ELSE {<<0, 1>>, <<127, 128>>, <<255, 0>>, <<254, 255>>, <<1, 128>>, <<129, 127>>} IN
                  \A v \in V : \A t \in (IF k >= n THEN {0} ELSE 0..2) :
                    (n <= 40 \/ (k + n + v[1] + t) % 7 = 0) => Emit([n |-> n, k |-> k, v |-> v, t |-> t])
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
