---------------------------- MODULE TocCacheTrace ---------------------------
(* Follows recorded histories of a database and its stored tables of          *)
(* contents: "start", "update" (ver, n), "search" (bits, q: rank of the query *)
(* in the present version, status, ans: number of the record, -1 not found,   *)
(* 0 something else), with killed and disk. Other entries do not matter here. *)
EXTENDS Base
VARIABLES l, ver, n
Ev == TraceLog[l]
Init == l = 1 /\ ReachInit /\ ver = 0 /\ n = 0

Expect(q) == IF q % 2 = 0 /\ q > 0 /\ q <= 2 * n THEN q \div 2 ELSE -1
Start == Ev.op = "start" /\ ver' = 0 /\ n' = 0
Update == Ev.op = "update" /\ ver' = Ev.ver /\ n' = Ev.n
SearchOK == \/ Ev.killed
            \/ Ev.disk = "full" /\ Ev.status = "refused"
            \/ Ev.status \in {"found", "notfound"} /\ Ev.ans = Expect(Ev.q)
Search == Ev.op = "search" /\ SearchOK = TRUE /\ UNCHANGED <<ver, n>>
Other == Ev.op \in {"tick", "disk"} /\ UNCHANGED <<ver, n>>
Next == l <= Len(TraceLog) /\ (Start \/ Update \/ Search \/ Other) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, ver, n>>
Constr == Reach(l)
=============================================================================
