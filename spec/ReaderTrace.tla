---------------------------- MODULE ReaderTrace -----------------------------
(* Judges recorded runs of the tools on databases which are missing, torn or  *)
(* whole. An event has, for each database given: exists, bytes (as            *)
(* whole * rec + rest), rec (record size of the chosen format); and rc,       *)
(* message (was there one), answers (records or answers produced), toc (with  *)
(* a table of contents, which may be refused for a gap, P08).                 *)
EXTENDS Base
VARIABLES l
Ev == TraceLog[l]
Usable(d) == d.exists /\ d.rest = 0
EventOK(e) ==
  IF \E k \in DOMAIN e.dbs : ~ Usable(e.dbs[k])
  THEN e.rc \notin {0, -99} /\ e.message /\ e.answers = 0
  ELSE e.rc = 0 \/ (e.toc /\ e.rc # -99)
Init == l = 1 /\ ReachInit
Next == l <= Len(TraceLog) /\ EventOK(Ev) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
Constr == Reach(l)
=============================================================================
