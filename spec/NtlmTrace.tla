------------------------------ MODULE NtlmTrace -----------------------------
(* Judges recorded calls: of hibp::ntlm (pw, rc, hash) and of MD4 (msg, hash). *)
EXTENDS Ntlm
VARIABLE l
Ev == TraceLog[l]
OK(e) ==
  IF "msg" \in DOMAIN e THEN e.rc = 0 /\ e.hash = Md4(e.msg)
  ELSE LET cps == Decode(e.pw) IN
       IF Valid(cps) THEN e.rc = 0 /\ e.hash = Md4(Utf16(cps))
       ELSE IF HasSurrogate(e.pw) THEN e.rc \in {0, 1}
       ELSE e.rc = 1
Init == l = 1 /\ ReachInit
Next == l <= Len(TraceLog) /\ OK(Ev) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
Constr == Reach(l)
=============================================================================
