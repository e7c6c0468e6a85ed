------------------------------- MODULE Reader -------------------------------
(* How the tools read a binary database: the file has `size` bytes, a record  *)
(* has RecSize of them; records are fetched in blocks of at most BlockRecs.   *)
(* The size is checked when the file is opened ("checked"). Other styles show *)
(* what goes wrong otherwise: "floor" ignores a remainder, "eof" reads until  *)
(* a read returns nothing, "tooBig" refuses large files.                      *)
EXTENDS Base
CONSTANTS RecSize, BlockRecs, MaxSize, Styles
VARIABLES style, exists, size, n, pos, got, pc, rc
vars == <<style, exists, size, n, pos, got, pc, rc>>

Init == /\ style \in Styles /\ exists \in BOOLEAN /\ size \in 0..MaxSize
        /\ (~ exists => size = 0)
        /\ n = 0 /\ pos = 0 /\ got = <<>> /\ pc = "open" /\ rc = -1
keep == UNCHANGED <<style, exists, size>>

Refuse == pc' = "exit" /\ rc' = 1 /\ UNCHANGED <<n, pos, got>>
Open == /\ pc = "open" /\ keep
        /\ IF ~ exists THEN Refuse
           ELSE IF style = "checked" /\ size % RecSize # 0 THEN Refuse
           ELSE IF style = "tooBig" /\ size > 3 * RecSize THEN Refuse
           ELSE /\ pc' = "read" /\ UNCHANGED <<pos, got, rc>>
                /\ n' = IF style = "eof" THEN (size + RecSize - 1) \div RecSize ELSE size \div RecSize
(* a record is represented by the offset of its first byte and its length *)
Read == /\ pc = "read" /\ pos < n /\ keep
        /\ LET k == Min(BlockRecs, n - pos) IN
             /\ got' = got \o [j \in 1..k |-> <<(pos + j - 1) * RecSize,
                                                Min(RecSize, size - (pos + j - 1) * RecSize)>>]
             /\ pos' = pos + k
        /\ UNCHANGED <<n, pc, rc>>
Finish == /\ pc = "read" /\ pos = n /\ keep /\ pc' = "exit" /\ rc' = 0 /\ UNCHANGED <<n, pos, got>>
Next == Open \/ Read \/ Finish
Spec == Init /\ [][Next]_vars

Usable == exists /\ size % RecSize = 0
(* P21 *)
TornRefused == pc = "exit" /\ ~ Usable => rc # 0 /\ got = <<>>
WholeAccepted == pc = "exit" /\ Usable => rc = 0 /\ Len(got) * RecSize = size
OnlyWhole == \A k \in DOMAIN got : got[k] = <<(k - 1) * RecSize, RecSize>>

GenInit == Init /\ Emit([exists |-> exists, whole |-> size \div RecSize, rest |-> size % RecSize])
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
