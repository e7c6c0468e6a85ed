------------------------------- MODULE Dupes --------------------------------
(* hibp-dupes (app/hibp_dupes.cpp): one pass which compares the leading bits  *)
(* of each record with those of the one before.                               *)
EXTENDS Base
CONSTANTS Bytes, HashLen, MaxLen, AllBits
VARIABLES db, bits, pos, last, printed, pc
vars == <<db, bits, pos, last, printed, pc>>

None == <<>>
Pow2(k) == <<1, 2, 4, 8, 16, 32, 64, 128>>[k + 1]
Bit(h, k) == (h[((k - 1) \div 8) + 1] \div Pow2(7 - ((k - 1) % 8))) % 2   \* bit k (from 1) of hash h
Lead(h, b) == [k \in 1..b |-> Bit(h, k)]

LexLess(a, b) == \E k \in 1..HashLen : a[k] < b[k] /\ \A m \in 1..(k - 1) : a[m] = b[m]

Init == /\ db \in SeqsUpTo([1..HashLen -> Bytes], MaxLen)
        /\ \A k \in 1..(Len(db) - 1) : LexLess(db[k], db[k + 1])
        /\ bits \in AllBits
        /\ pos = 0 /\ last = None /\ printed = <<>> /\ pc = "run"
Step == /\ pc = "run" /\ pos < Len(db)
        /\ LET x == Lead(db[pos + 1], bits) IN
             /\ printed' = IF last = x THEN Append(printed, pos + 1) ELSE printed
             /\ last' = x
        /\ pos' = pos + 1 /\ UNCHANGED <<db, bits, pc>>
Finish == pc = "run" /\ pos = Len(db) /\ pc' = "done" /\ UNCHANGED <<db, bits, pos, last, printed>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

(* exactly the records whose leading bits are those of the record before *)
IsDupe(d, b, k) == k > 1 /\ \A m \in 1..b : Bit(d[k], m) = Bit(d[k - 1], m)
Contract(d, b, p) ==
  /\ \A k \in 1..(Len(p) - 1) : p[k] < p[k + 1]
  /\ Range(p) = {k \in 1..Len(d) : IsDupe(d, b, k)}
Correct == pc = "done" => Contract(db, bits, printed)

GenInit == Init /\ Emit([db |-> db, bits |-> bits])
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
