-------------------------------- MODULE TopN --------------------------------
(* hibp-topn (app/hibp_topn.cpp): one pass over the database keeps the N most *)
(* common records in memory (std::partial_sort_copy: a heap whose top is the  *)
(* worst record kept), then these are sorted by hash and written.             *)
EXTENDS Base

CONSTANTS Hashes, Counts, MaxLen, MaxN

VARIABLES input, n,
          pc,     \* "read" | "write" | "done" | "refused"
          pos,    \* records read
          kept,   \* set of indices of input: the contents of the heap
          out     \* records written

vars == <<input, n, pc, pos, kept, out>>

Records == Hashes \X Counts
Worse(a, b) == CountBefore(b, a)

Init == /\ input \in SeqsUpTo(Records, MaxLen)
        /\ n \in 0..MaxN
        /\ pc = IF Len(input) <= n THEN "refused" ELSE "read"
        /\ pos = 0 /\ kept = {} /\ out = <<>>

Fill == /\ pc = "read" /\ pos < Len(input) /\ Cardinality(kept) < n
        /\ kept' = kept \cup {pos + 1} /\ pos' = pos + 1
        /\ UNCHANGED <<input, n, pc, out>>

Replace ==  \* the next record is more common than a worst one kept
  /\ pc = "read" /\ pos < Len(input) /\ Cardinality(kept) = n /\ n > 0
  /\ \E w \in kept :
       /\ \A k \in kept : ~ Worse(input[k], input[w])
       /\ Worse(input[w], input[pos + 1])
       /\ kept' = (kept \ {w}) \cup {pos + 1}
  /\ pos' = pos + 1
  /\ UNCHANGED <<input, n, pc, out>>

Skip == /\ pc = "read" /\ pos < Len(input) /\ Cardinality(kept) = n
        /\ \A w \in kept : (\A k \in kept : ~ Worse(input[k], input[w]))
                           => ~ Worse(input[w], input[pos + 1])
        /\ pos' = pos + 1
        /\ UNCHANGED <<input, n, pc, kept, out>>

ReadDone == /\ pc = "read" /\ pos = Len(input)
            /\ pc' = "write"
            /\ UNCHANGED <<input, n, pos, kept, out>>

Write ==   \* in order of the hashes
  /\ pc = "write" /\ Len(out) < Cardinality(kept)
  /\ \E k \in kept :
       /\ Cardinality({j \in kept : HashLess(input[j], input[k])}) <= Len(out)
       /\ Count(out, input[k]) < Cardinality({j \in kept : input[j] = input[k]})
       /\ \A j \in kept : HashLess(input[j], input[k])
                          => Count(out, input[j]) = Cardinality({i \in kept : input[i] = input[j]})
       /\ out' = Append(out, input[k])
  /\ UNCHANGED <<input, n, pc, pos, kept>>

WriteDone == /\ pc = "write" /\ Len(out) = Cardinality(kept)
             /\ pc' = "done"
             /\ UNCHANGED <<input, n, pos, kept, out>>

Next == Fill \/ Replace \/ Skip \/ ReadDone \/ Write \/ WriteDone
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------ *)
SubBag(s, t) == \A x \in Range(s) : Count(s, x) <= Count(t, x)
LeftOut(in, o, x) == Count(o, x) < Count(in, x)
Contract(in, k, o) ==
  /\ Len(o) = k
  /\ SubBag(o, in)
  /\ \A i \in 1..(Len(o) - 1) : ~ HashLess(o[i + 1], o[i])
  /\ \A x \in Range(in) : LeftOut(in, o, x) => \A y \in Range(o) : ~ CountBefore(x, y)

Correct == pc = "done" => Contract(input, n, out)
HeapOK == pc = "read" => \A i \in 1..pos \ kept : \A k \in kept : ~ CountBefore(input[i], input[k])

GenInit == Init /\ Emit([n |-> n, in |-> input])
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
