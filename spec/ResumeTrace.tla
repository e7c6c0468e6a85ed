----------------------------- MODULE ResumeTrace -----------------------------
(* Follows recorded histories of downloads which were cut off and resumed.    *)
(*  start:   N files                                                          *)
(*  content: what the server has for file f now (numbers of its records)      *)
(*  cut:     a run ended by a crash, disk: what is left of the output         *)
(*  run:     a run with --resume (or the first one) ended with exit status rc *)
(*           disk: its output as <<f, record>>, <<-1, 0>> for anything else;  *)
(*           limit; fault: an answer of the server was made to fail           *)
EXTENDS Base
VARIABLES l, N, cont, past, disk, changed
Ev == TraceLog[l]
Init == l = 1 /\ ReachInit /\ N = 0 /\ cont = <<>> /\ past = <<>> /\ disk = <<>> /\ changed = FALSE

Start == /\ Ev.op = "start" /\ N' = Ev.n
         /\ cont' = [f \in 0..(Ev.n - 1) |-> <<>>] /\ past' = [f \in 0..(Ev.n - 1) |-> {}]
         /\ disk' = <<>> /\ changed' = FALSE
Content == /\ Ev.op = "content"
           /\ changed' = (changed \/ past[Ev.f] # {})
           /\ cont' = [cont EXCEPT ![Ev.f] = Ev.recs]
           /\ past' = [past EXCEPT ![Ev.f] = @ \cup {Ev.recs}]
           /\ UNCHANGED <<N, disk>>

Files == 0..(N - 1)
Part(s, f) == LET p == SelectSeq(s, LAMBDA x : x[1] = f) IN [i \in DOMAIN p |-> p[i][2]]
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
Known(s) == \A i \in DOMAIN s : s[i][1] \in Files
LastFile(s) == IF s = <<>> THEN -1 ELSE s[Len(s)][1]
Beginning(s) ==
  /\ Known(s) /\ Ascending(s)
  /\ \A f \in Files : IF f < LastFile(s) THEN Part(s, f) \in past[f]
                      ELSE IF f = LastFile(s) THEN \E v \in past[f] : IsPrefix(Part(s, f), v)
                      ELSE TRUE
Whole(s, limit) ==
  /\ Known(s) /\ Ascending(s) /\ LastFile(s) < limit
  /\ \A f \in 0..(limit - 1) :
       /\ Part(s, f) \in past[f]
       /\ f > LastFile(disk) => Part(s, f) = cont[f]     \* asked for in this run
Full(limit) == LET RECURSIVE Cat(_)
                   Cat(f) == IF f = limit THEN <<>>
                             ELSE [i \in DOMAIN cont[f] |-> <<f, cont[f][i]>>] \o Cat(f + 1)
               IN Cat(0)
CutOK == Beginning(Ev.disk)
Cut == /\ Ev.op = "cut" /\ CutOK = TRUE
       /\ disk' = Ev.disk /\ UNCHANGED <<N, cont, past, changed>>
RunOK ==
  /\ Ev.rc >= 0         \* it has come to an end
  /\ IF Ev.rc = 0
     THEN /\ ~ Ev.torn
          /\ Whole(Ev.disk, Ev.limit)
          /\ ~ changed => Ev.disk = Full(Ev.limit)
     ELSE /\ Beginning(Ev.disk)
          /\ changed \/ Ev.fault \/ disk = Full(Ev.limit)
Run == /\ Ev.op = "run" /\ RunOK = TRUE
       /\ disk' = Ev.disk /\ UNCHANGED <<N, cont, past, changed>>
Next == l <= Len(TraceLog) /\ (Start \/ Content \/ Cut \/ Run) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, N, cont, past, disk, changed>>
Constr == Reach(l)
=============================================================================
