---------------------------- MODULE ConvertTrace ----------------------------
(* Judges recorded runs of hibp-convert.                                      *)
(* dir "t2b": lines (character codes, without line end), limit (-1: none),    *)
(*   hlen, rc, out (records <<hash bytes, count>>), whole                     *)
(* dir "b2t": recs, limit, rc, out (character codes)                          *)
(* big runs: n records, limit, rc, ids (which input record is output k;       *)
(*   0: none), bad (number of the first malformed line or 0)                  *)
EXTENDS Base
VARIABLES l, lines, limit, pos, buf, out, pc
C == INSTANCE Convert WITH MaxLines <- 0, Recs <- {}, MaxLimit <- 0, Buf <- 1
Ev == TraceLog[l]
others == <<lines, limit, pos, buf, out, pc>>

Lim(e, n) == IF e.limit < 0 THEN n ELSE Min(e.limit, n)
FirstBad(e) == LET B == {k \in 1..Len(e.lines) : ~ C!WellFormed(e.lines[k], e.hlen)}
               IN IF B = {} THEN 0 ELSE CHOOSE k \in B : \A m \in B : k <= m
(* a truncated hash (sha1t64) in the text of a full one: the count comes after the 40 digits of that *)
CountAt(s, hlen) == IF hlen = 8 /\ Len(s) > 16 /\ s[17] # 58 /\ Len(s) >= 40 THEN 20 ELSE hlen
ParseLine(s, hlen) == <<C!HashOf(s, hlen), C!CountOf(s, CountAt(s, hlen))>>
Parsed(e, n) == [k \in 1..n |-> ParseLine(e.lines[k], e.hlen)]

(* P12: well-formed input *)
GoodOK(e) ==
  IF "ids" \in DOMAIN e
  THEN e.rc = 0 /\ Len(e.ids) = Lim(e, e.n) /\ \A k \in DOMAIN e.ids : e.ids[k] = k
  ELSE IF e.dir = "t2b"
  THEN e.rc = 0 /\ e.whole /\ e.out = Parsed(e, Lim(e, Len(e.lines)))
  ELSE e.rc = 0 /\ e.out = C!PrintAll(SubSeq(e.recs, 1, Lim(e, Len(e.recs))))

(* P22: a malformed line within the limit *)
BadOK(e) ==
  IF "ids" \in DOMAIN e
  THEN e.rc \notin {0, -99} /\ Len(e.ids) < e.bad /\ \A k \in DOMAIN e.ids : e.ids[k] = k
  ELSE /\ e.rc \notin {0, -99}
       /\ Len(e.out) < FirstBad(e)
       /\ e.out = Parsed(e, Len(e.out))

IsBad(e) == IF "ids" \in DOMAIN e THEN e.bad # 0 ELSE e.dir = "t2b" /\ FirstBad(e) # 0
RunOK(e) == /\ e.inputSame
            /\ IF IsBad(e) THEN BadOK(e) ELSE GoodOK(e)

Init == /\ l = 1 /\ ReachInit
        /\ lines = 0 /\ limit = 0 /\ pos = 0 /\ buf = 0 /\ out = 0 /\ pc = 0
Next == l <= Len(TraceLog) /\ RunOK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED others
Spec == Init /\ [][Next]_<<l, others>>
Constr == Reach(l)
=============================================================================
