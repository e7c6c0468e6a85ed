------------------------------ MODULE CliTrace ------------------------------
(* Judges recorded runs of the tools by what they did to existing files.      *)
(* Events of convert, topn, download: a command of module Cli with rc, inSame *)
(* outSame (a file which existed is as it was), others (bystanders are).      *)
(* Events of the tools which only read: tool, rc, inSame, others.             *)
EXTENDS Base
VARIABLES l, c, pc, inp, outp, rc
C == INSTANCE Cli WITH Order <- "right"
Ev == TraceLog[l]
rest == <<c, pc, inp, outp, rc>>

MayChange(e) == ~ C!Refused(e) /\ e.dst = "file"
CommandOK(e) ==
  /\ C!Refused(e) => e.rc \notin {0, -99}
  /\ ~ MayChange(e) => e.outSame
EventOK(e) == /\ e.inSame /\ e.others /\ e.rc # -99
              /\ "dst" \in DOMAIN e => CommandOK(e)
Init == l = 1 /\ ReachInit /\ c = 0 /\ pc = 0 /\ inp = 0 /\ outp = 0 /\ rc = 0
Next == l <= Len(TraceLog) /\ EventOK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED rest
Spec == Init /\ [][Next]_<<l, rest>>
Constr == Reach(l)
=============================================================================
