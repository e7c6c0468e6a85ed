----------------------------- MODULE DiffTrace ------------------------------
(* Judges recorded runs of the real diff: old, new, rc, hunks. *)
EXTENDS Base
VARIABLES l, old, new, i, j, hunks, pc
D == INSTANCE Diff WITH Hashes <- {}, Counts <- {}
Ev == TraceLog[l]
others == <<old, new, i, j, hunks, pc>>
Init == l = 1 /\ ReachInit /\ old = 0 /\ new = 0 /\ i = 0 /\ j = 0 /\ hunks = 0 /\ pc = 0
Next == /\ l <= Len(TraceLog)
        /\ D!Contract(Ev.old, Ev.new, Ev.rc = 0, Ev.hunks) = TRUE
        /\ Ev.inputSame
        /\ l' = l + 1 /\ UNCHANGED others
Spec == Init /\ [][Next]_<<l, others>>
Constr == Reach(l)
=============================================================================
