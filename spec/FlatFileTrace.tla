---------------------------- MODULE FlatFileTrace ---------------------------
(* Follows recorded operations on real databases: op, i, d, res (the number   *)
(* of the record returned, from 1; -1: refused; 0: something which is not in  *)
(* the file; comparisons: 0/1 ...).                                           *)
EXTENDS Base
VARIABLES l, n, pos, broken
Ev == TraceLog[l]
vars == <<l, n, pos, broken>>

Init == l = 1 /\ ReachInit /\ n = 0 /\ pos = <<>> /\ broken = FALSE

ReadOK(p, r) == IF p < n THEN r = p + 1 \/ (broken /\ r = -1) ELSE r = -1

Start == /\ Ev.op = "open" /\ n' = Ev.n /\ pos' = [i \in 1..Ev.its |-> 0] /\ broken' = FALSE
Deref == /\ Ev.op \in {"deref", "arrow"} /\ ReadOK(pos[Ev.i], Ev.res) /\ UNCHANGED <<n, pos, broken>>
Get == /\ Ev.op = "get" /\ ReadOK(Ev.i, Ev.res) /\ UNCHANGED <<n, pos, broken>>
Back == /\ Ev.op = "back" /\ ReadOK(n - 1, Ev.res) /\ UNCHANGED <<n, pos, broken>>
(* res of a move: the new position; post-increment and -decrement also return *)
(* the old one (old)                                                          *)
Move == /\ Ev.op = "move"
        /\ pos' = [pos EXCEPT ![Ev.i] = @ + Ev.d]
        /\ Ev.res = pos[Ev.i] + Ev.d /\ Ev.old = pos[Ev.i]
        /\ UNCHANGED <<n, broken>>
Copy == /\ Ev.op = "copy" /\ pos' = [pos EXCEPT ![Ev.i] = pos[Ev.d]] /\ Ev.res = pos[Ev.d]
        /\ UNCHANGED <<n, broken>>
Compare == /\ Ev.op = "cmp"
           /\ Ev.res = (IF pos[Ev.i] = pos[Ev.d] THEN 1 ELSE 0)
           /\ Ev.diff = pos[Ev.i] - pos[Ev.d]
           /\ UNCHANGED <<n, pos, broken>>
Reset == /\ Ev.op = "reset" /\ pos' = [pos EXCEPT ![Ev.i] = IF Ev.d = 1 THEN n ELSE 0]
         /\ Ev.res = (IF Ev.d = 1 THEN n ELSE 0) /\ UNCHANGED <<n, broken>>
Search == /\ Ev.op = "lower"      \* std::lower_bound for the value of record i (from 0)
          /\ Ev.res = Ev.i \/ (broken /\ Ev.res = -1)
          /\ UNCHANGED <<n, pos, broken>>
Break == /\ Ev.op = "break" /\ broken' = TRUE /\ UNCHANGED <<n, pos>>
Repair == /\ Ev.op = "repair" /\ broken' = FALSE /\ UNCHANGED <<n, pos>>
MoveDb == /\ Ev.op = "movedb" /\ pos' = [i \in DOMAIN pos |-> 0] /\ UNCHANGED <<n, broken>>

Next == /\ l <= Len(TraceLog)
        /\ Start \/ Deref \/ Get \/ Back \/ Move \/ Copy \/ Compare \/ Reset \/ Search \/ Break \/ Repair
           \/ MoveDb
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Constr == Reach(l)
=============================================================================
