------------------------------- MODULE Lookup -------------------------------
(* Finding a hash in a sorted database: binary search over the whole file     *)
(* (app/hibp_search.cpp), or with a table of contents (src/toc.cpp) which     *)
(* gives for each value of the leading bits the position of the first record  *)
(* with it. Hashes are numbers 0..2^Width-1.                                  *)
EXTENDS Base
CONSTANTS Width, MaxLen, AllBits

VARIABLES db, bits,        \* bits = 0: no table of contents
          toc, entries, lastpos,
          needle, lo, len, hi, ans, pc
vars == <<db, bits, toc, entries, lastpos, needle, lo, len, hi, ans, pc>>

Two(k) == 2 ^ k
Prefix(h, b) == h \div Two(Width - b)
Hashes == 0..(Two(Width) - 1)
NOTFOUND == -1
ERROR == -2

Sorted(S) == [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1]
Init == /\ \E S \in SUBSET Hashes : Cardinality(S) <= MaxLen /\ db = Sorted(S)
        /\ bits \in AllBits
        /\ needle \in Hashes
        /\ toc = <<>> /\ entries = 0 /\ lastpos = 0 /\ lo = 0 /\ len = 0 /\ hi = 0 /\ ans = NOTFOUND
        /\ pc = IF bits = 0 THEN "start" ELSE "size"

(* ------------------------------ building ---------------------------------- *)
Size == /\ pc = "size"
        /\ IF db = <<>> THEN pc' = "done" /\ ans' = ERROR /\ UNCHANGED entries
           ELSE pc' = "build" /\ entries' = Prefix(db[Len(db)], bits) + 1 /\ UNCHANGED ans
        /\ UNCHANGED <<db, bits, toc, lastpos, needle, lo, len, hi>>
Entry ==   \* the first record at or after the last position with the next prefix
  /\ pc = "build" /\ Len(toc) < entries
  /\ LET p == Len(toc)
         F == {k \in lastpos..(Len(db) - 1) : Prefix(db[k + 1], bits) = p} IN
       IF F = {} THEN pc' = "done" /\ ans' = ERROR /\ UNCHANGED <<toc, lastpos>>
       ELSE LET f == CHOOSE f \in F : \A k \in F : f <= k IN
            toc' = Append(toc, f) /\ lastpos' = f /\ UNCHANGED <<pc, ans>>
  /\ UNCHANGED <<db, bits, entries, needle, lo, len, hi>>
Built == /\ pc = "build" /\ Len(toc) = entries /\ pc' = "start"
         /\ UNCHANGED <<db, bits, toc, entries, lastpos, needle, lo, len, hi, ans>>

(* ------------------------------ searching --------------------------------- *)
Start ==
  /\ pc = "start"
  /\ LET p == Prefix(needle, bits) IN
     IF bits = 0 THEN lo' = 0 /\ len' = Len(db) /\ hi' = Len(db) /\ pc' = "search"
     ELSE IF p >= Len(toc) THEN pc' = "done" /\ UNCHANGED <<lo, len, hi>>
     ELSE LET b == toc[p + 1]
              e == IF p + 1 < Len(toc) THEN toc[p + 2] ELSE Len(db) IN
          lo' = b /\ len' = e - b /\ hi' = e /\ pc' = "search"
  /\ UNCHANGED <<db, bits, toc, entries, lastpos, needle, ans>>
Halve ==
  /\ pc = "search" /\ len > 0
  /\ LET half == len \div 2
         mid == lo + half IN
     IF db[mid + 1] < needle THEN lo' = mid + 1 /\ len' = len - half - 1
     ELSE lo' = lo /\ len' = half
  /\ UNCHANGED <<db, bits, toc, entries, lastpos, needle, hi, ans, pc>>
Answer ==
  /\ pc = "search" /\ len = 0
  /\ ans' = IF lo < Len(db) /\ db[lo + 1] = needle THEN lo + 1 ELSE NOTFOUND
  /\ pc' = "done" /\ UNCHANGED <<db, bits, toc, entries, lastpos, needle, lo, len, hi>>
Next == Size \/ Entry \/ Built \/ Start \/ Halve \/ Answer
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties -------------------------------- *)
Gap == bits # 0 /\ db # <<>> /\ \E p \in 0..Prefix(db[Len(db)], bits) :
                                   \A k \in DOMAIN db : Prefix(db[k], bits) # p
Expected == IF \E k \in DOMAIN db : db[k] = needle THEN CHOOSE k \in DOMAIN db : db[k] = needle
            ELSE NOTFOUND
Correct == pc = "done" => ans = Expected \/ (ans = ERROR /\ (Gap \/ (bits # 0 /\ db = <<>>)))
(* the table: each entry is the first record of its prefix *)
TocOK == pc \in {"start", "search"} =>
           \A p \in 1..Len(toc) : \A k \in DOMAIN db :
              (k - 1 < toc[p]) = (Prefix(db[k], bits) < p - 1)
(* reads needed: the table saves them *)
Bracket == pc = "search" => lo + len <= hi

GenInit == Init /\ needle = 0 /\ db # <<>> /\ bits # 0 /\ Emit([db |-> db, bits |-> bits])
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
