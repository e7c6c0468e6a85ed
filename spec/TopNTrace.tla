----------------------------- MODULE TopNTrace ------------------------------
(* Judges recorded runs of the real hibp-topn. One log entry per run: in, n,  *)
(* rc and out. For big inputs out is given as ids (out[j] = in[ids[j]]) and   *)
(* w, the last of the kept ones in the order by count.                        *)
EXTENDS Base
VARIABLE l
Ev == TraceLog[l]

SubBag(s, t) == \A x \in Range(s) : Count(s, x) <= Count(t, x)
SmallOK(e) ==
  /\ Len(e.out) = e.n
  /\ SubBag(e.out, e.in)
  /\ \A i \in 1..(Len(e.out) - 1) : ~ HashLess(e.out[i + 1], e.out[i])
  /\ \A x \in Range(e.in) : Count(e.out, x) < Count(e.in, x)
                            => \A y \in Range(e.out) : ~ CountBefore(x, y)

BigOK(e) ==
  LET kept == Range(e.ids) IN
  /\ Len(e.ids) = e.n
  /\ kept \subseteq 1..Len(e.in)
  /\ Cardinality(kept) = e.n
  /\ \A j \in 1..(Len(e.ids) - 1) : ~ HashLess(e.in[e.ids[j + 1]], e.in[e.ids[j]])
  /\ e.w \in kept
  /\ \A k \in kept : ~ CountBefore(e.in[e.w], e.in[k])
  /\ \A i \in 1..Len(e.in) \ kept : ~ CountBefore(e.in[i], e.in[e.w])

RunOK(e) ==
  /\ e.inputSame
  /\ IF e.n >= Len(e.in)
     THEN e.rc # 0
     ELSE /\ e.rc = 0 /\ e.whole
          /\ IF "ids" \in DOMAIN e THEN BigOK(e) ELSE SmallOK(e)

Init == l = 1 /\ ReachInit
Next == l <= Len(TraceLog) /\ RunOK(Ev) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
Constr == Reach(l)
=============================================================================
