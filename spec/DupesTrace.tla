----------------------------- MODULE DupesTrace -----------------------------
(* Judges recorded runs of hibp-dupes: db (the first 8 bytes of each hash),   *)
(* bits, rc, printed (indices of the reported records; 0: no such record).    *)
(* Other numbers of bits than 32..64 are refused.                             *)
(* Big databases come as classes of equal leading bits instead.               *)
EXTENDS Base
VARIABLES l, db, bits, pos, last, printed, pc
D == INSTANCE Dupes WITH Bytes <- {}, HashLen <- 8, MaxLen <- 0, AllBits <- {}
Ev == TraceLog[l]
others == <<db, bits, pos, last, printed, pc>>
BigOK(e) == /\ \A k \in 1..(Len(e.printed) - 1) : e.printed[k] < e.printed[k + 1]
            /\ Range(e.printed) = {k \in 2..Len(e.cls) : e.cls[k] = e.cls[k - 1]}
Allowed(b) == b \in 32..64
RunOK(e) == IF ~ Allowed(e.bits) THEN e.rc \notin {0, 99} /\ e.rc > 0 /\ e.printed = <<>> ELSE e.rc = 0 /\ IF "cls" \in DOMAIN e THEN BigOK(e) ELSE D!Contract(e.db, e.bits, e.printed)
Init == l = 1 /\ ReachInit /\ db = 0 /\ bits = 0 /\ pos = 0 /\ last = 0 /\ printed = 0 /\ pc = 0
Next == /\ l <= Len(TraceLog) /\ RunOK(Ev) = TRUE
        /\ l' = l + 1 /\ UNCHANGED others
Spec == Init /\ [][Next]_<<l, others>>
Constr == Reach(l)
=============================================================================
