-------------------------------- MODULE Base --------------------------------
(* Helpers shared by all specifications of this directory: printing of        *)
(* generated scenarios, reading of recorded traces, bags and orderings of     *)
(* records. A record is <<hash, count>>: hashes are represented by their rank *)
(* in unsigned lexicographic order (module Order decides that order itself).  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Emit(x) == PrintT("GEN " \o ToJson(x))

Range(s) == {s[i] : i \in DOMAIN s}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(* trace reading: `TraceLog` is the recorded log, l the next entry *)
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Reach(l) == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ReachInit == TLCSet(1, 0)
ReachPost == PrintT(<<"REACHED", TLCGet(1)>>)

(* record orderings *)
HashLess(a, b) == a[1] < b[1]
CountBefore(a, b) == a[2] > b[2] \/ (a[2] = b[2] /\ a[1] < b[1])

SortedBy(s, Before(_, _)) == \A i \in 1..(Len(s) - 1) : ~ Before(s[i + 1], s[i])
StrictlySorted(s) == \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1]

(* the number of occurrences of each element of s, as a function *)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Range(s) \cup Range(t) : Count(s, x) = Count(t, x)
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
=============================================================================
