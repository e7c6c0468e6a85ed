---------------------------- MODULE ExtSortTrace ----------------------------
(* Judges recorded runs of the real disk sort. One log entry per run:         *)
(*  mode, rc, in, out: sequences of <<rank, count>>; big runs instead have    *)
(*  ids: out[j] = in[ids[j]] as matched by the recorder (0: no such record).  *)
EXTENDS Base
VARIABLE l

Ev == TraceLog[l]
Before(m, a, b) == IF m = "hash" THEN HashLess(a, b) ELSE CountBefore(a, b)

SmallOK(e) ==
  /\ SameBag(e.in, e.out)
  /\ \A i \in 1..(Len(e.out) - 1) : ~ Before(e.mode, e.out[i + 1], e.out[i])

BigOK(e) ==
  /\ Len(e.ids) = Len(e.in)
  /\ \A j \in 1..Len(e.ids) : e.ids[j] \in 1..Len(e.in)
  /\ Cardinality(Range(e.ids)) = Len(e.in)
  /\ \A j \in 1..(Len(e.ids) - 1) : ~ Before(e.mode, e.in[e.ids[j + 1]], e.in[e.ids[j]])

SortOK(e) ==
  /\ e.rc = 0
  /\ e.named                   \* the result is in <input>.sorted
  /\ IF "ids" \in DOMAIN e THEN BigOK(e) ELSE SmallOK(e)
  /\ e.inputSame
  /\ e.leftover = <<>>

Init == l = 1 /\ ReachInit
Next == l <= Len(TraceLog) /\ SortOK(Ev) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
Constr == Reach(l)
=============================================================================
