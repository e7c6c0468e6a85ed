-------------------------------- MODULE Diff --------------------------------
(* hibp-diff (src/diffutils.cpp): both databases are walked with two          *)
(* positions; equal records are skipped, a record only in NEW is an insertion *)
(* before the current position of OLD, same hash with another count is an     *)
(* update, and a record only in OLD is an error.                              *)
EXTENDS Base

CONSTANTS Hashes, Counts

VARIABLES old, new, i, j, hunks, pc
vars == <<old, new, i, j, hunks, pc>>

(* strictly sorted databases: a partial function from hashes to counts *)
Dbs == UNION {[S -> Counts] : S \in SUBSET Hashes}
ToSeq(f) == LET D == DOMAIN f
                Nth[k \in 1..Cardinality(D)] ==
                  CHOOSE h \in D : Cardinality({g \in D : g < h}) = k - 1
            IN [k \in 1..Cardinality(D) |-> <<Nth[k], f[Nth[k]]>>]

Init == /\ \E f, g \in Dbs : old = ToSeq(f) /\ new = ToSeq(g)
        /\ i = 1 /\ j = 1 /\ hunks = <<>> /\ pc = "run"

Hunk(t, p, r) == <<t, p, r[1], r[2]>>   \* t: 0 update, 1 insert; p counts from 0

Skip == /\ pc = "run" /\ i <= Len(old) /\ j <= Len(new) /\ old[i] = new[j]
        /\ i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<old, new, hunks, pc>>
Insert == /\ pc = "run" /\ j <= Len(new)
          /\ IF i > Len(old) THEN TRUE ELSE HashLess(new[j], old[i])
          /\ hunks' = Append(hunks, Hunk(1, i - 1, new[j]))
          /\ j' = j + 1 /\ UNCHANGED <<old, new, i, pc>>
Update == /\ pc = "run" /\ i <= Len(old) /\ j <= Len(new)
          /\ old[i][1] = new[j][1] /\ old[i][2] # new[j][2]
          /\ hunks' = Append(hunks, Hunk(0, i - 1, new[j]))
          /\ i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<old, new, pc>>
Deletion == /\ pc = "run" /\ i <= Len(old)
            /\ IF j > Len(new) THEN TRUE ELSE HashLess(old[i], new[j])
            /\ pc' = "error" /\ UNCHANGED <<old, new, i, j, hunks>>
Finish == /\ pc = "run" /\ i > Len(old) /\ j > Len(new)
          /\ pc' = "done" /\ UNCHANGED <<old, new, i, j, hunks>>

Next == Skip \/ Insert \/ Update \/ Deletion \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------- properties ------------------------------ *)
Deleted(o, n) == ~ ({x[1] : x \in Range(o)} \subseteq {y[1] : y \in Range(n)})

(* Positions count from 0. Insertions at the same position are in the order   *)
(* of the hunks. Old record p gets the place p + (insertions at or before p), *)
(* which is the same for all p between two positions of insertions.           *)
IsIns(h) == h[1] = 1
InsBefore(hs, p) == Cardinality({k \in DOMAIN hs : IsIns(hs[k]) /\ hs[k][2] <= p})
PlaceOfIns(hs, k) == hs[k][2] + Cardinality({m \in DOMAIN hs : IsIns(hs[m]) /\
                         (hs[m][2] < hs[k][2] \/ (hs[m][2] = hs[k][2] /\ m < k))})
AppliesTo(o, hs, n) ==
  LET ins    == {k \in DOMAIN hs : IsIns(hs[k])}
      upd    == {k \in DOMAIN hs : ~ IsIns(hs[k])}
      updPos == {hs[k][2] : k \in upd}
      Patched(p) == IF p \in updPos
                    THEN LET k == CHOOSE k \in upd : hs[k][2] = p /\ \A m \in upd : hs[m][2] = p => m <= k
                         IN <<hs[k][3], hs[k][4]>>
                    ELSE o[p + 1]
      starts == {0} \cup {hs[k][2] : k \in ins}
  IN
  /\ \A k \in DOMAIN hs : hs[k][1] \in {0, 1} /\ hs[k][2] \in 0..(IF IsIns(hs[k]) THEN Len(o) ELSE Len(o) - 1)
  /\ Len(n) = Len(o) + Cardinality(ins)
  /\ \A a \in starts :
       LET shift == InsBefore(hs, a)
           later == {b \in starts : b > a} \cup {Len(o)}
           upto  == CHOOSE b \in later : \A x \in later : b <= x
       IN \A p \in a..(upto - 1) : n[p + shift + 1] = Patched(p)
  /\ \A k \in ins : n[PlaceOfIns(hs, k) + 1] = <<hs[k][3], hs[k][4]>>
NeededHunks(o, n) ==   \* both strictly sorted: every record of n that is not in o
  Cardinality(Range(n) \ Range(o))
Contract(o, n, ok, hs) ==
  IF Deleted(o, n) THEN ~ ok
  ELSE ok /\ AppliesTo(o, hs, n) /\ Len(hs) = NeededHunks(o, n)

Correct == pc \in {"done", "error"} => Contract(old, new, pc = "done", hunks)
Terminates == <>(pc \in {"done", "error"})

GenInit == Init /\ Emit([old |-> old, new |-> new])
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
