---------------------------- MODULE WriterTrace -----------------------------
(* Judges recorded runs of the tools while their output fails. Events:        *)
(*   start  total bytes of the complete output                                *)
(*   w      one write call to the output: requested, result (-1: failed)      *)
(*   end    exit status, length of the output, how many bytes of it agree     *)
(*          with the complete one, whether all write calls were recorded      *)
EXTENDS Base
VARIABLES l, all, disk, failed
Ev == TraceLog[l]
vars == <<l, all, disk, failed>>

Init == l = 1 /\ ReachInit /\ all = 0 /\ disk = 0 /\ failed = FALSE

EndOK(e) ==
  /\ e.rc # -99                                        \* it came to an end
  /\ (e.logged => disk = e.len)                        \* the file is what the calls wrote
  /\ (e.rc = 0 => e.len = all /\ e.agree = all)        \* P17
Next ==
  /\ l <= Len(TraceLog) /\ l' = l + 1
  /\ IF Ev.op = "start" THEN all' = Ev.total /\ disk' = 0 /\ failed' = FALSE
     ELSE IF Ev.op = "w" THEN
       /\ Ev.res <= Ev.req
       /\ IF Ev.res < 0 THEN failed' = TRUE /\ UNCHANGED disk
          ELSE disk' = disk + Ev.res /\ UNCHANGED failed
       /\ UNCHANGED all
     ELSE EndOK(Ev) = TRUE /\ UNCHANGED <<all, disk, failed>>
Spec == Init /\ [][Next]_vars
Constr == Reach(l)
=============================================================================
