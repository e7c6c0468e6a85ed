----------------------------- MODULE OrderTrace -----------------------------
(* Judges recorded comparisons of the real code. Arrays: a, b, three (sign of *)
(* three_way), int (sign of three_way_int), eq. Records: additionally ca, cb  *)
(* (the counts), ops = <<<, >, <=, >=, ==, !=>>, text (order of the printed   *)
(* hashes).                                                                   *)
EXTENDS Base
VARIABLES l, a, b, pos, res
O == INSTANCE Order WITH Bytes <- {}, MaxN <- 0, Word <- 8, Vec <- 16
Ev == TraceLog[l]
B(x) == IF x THEN 1 ELSE 0
OK(e) ==
  LET c == O!Lex(e.a, e.b) IN
  /\ e.ok
  /\ e.three = c
  /\ "int" \in DOMAIN e => e.int = c /\ e.eq = B(c = 0)
  /\ "ops" \in DOMAIN e => /\ e.ops = <<B(c < 0), B(c > 0), B(c <= 0), B(c >= 0), B(c = 0), B(c # 0)>>
                           /\ e.text = c
Init == l = 1 /\ ReachInit /\ a = 0 /\ b = 0 /\ pos = 0 /\ res = 0
Next == l <= Len(TraceLog) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED <<a, b, pos, res>>
Spec == Init /\ [][Next]_<<l, a, b, pos, res>>
Constr == Reach(l)
=============================================================================
