------------------------------ MODULE Resources -----------------------------
(* What the tools need: memory (records held besides one buffer per file) and *)
(* disk access (reads, records transferred), as records pass through          *)
(* flat_file::database, which has one buffer of Buf records and refills it    *)
(* whenever a record outside is asked for.                                    *)
(* tools: "scan"   (convert, diff, dupes, and a ToC being built) each record  *)
(*                 once, one after the other                                  *)
(*        "topn"   the same, m records are kept                               *)
(*        "sort"   chunks of m records are kept, sorted, written; then one    *)
(*                 buffer per chunk                                           *)
(*        "lookup" binary search in the chapter [lo, lo + len)                *)
(* Style: "code"; and designs which have to violate the properties:           *)
(*        "slurp" keeps all records, "keep" keeps the chunks, "back" looks at  *)
(*        a record far behind after each one, "linear" looks one by one       *)
EXTENDS Base
CONSTANTS MaxN, Bufs, MaxM, MergeBuf, Style
VARIABLES tool, n, buf, m, pc, pos, bs, be, reads, moved, held, files, lo, len, len0, base
vars == <<tool, n, buf, m, pc, pos, bs, be, reads, moved, held, files, lo, len, len0, base>>
conf == <<tool, n, buf, m, len0, base>>

RECURSIVE Log2(_)
Log2(k) == IF k <= 1 THEN 0 ELSE 1 + Log2((k + 1) \div 2)       \* rounded up

(* ---- what is allowed (also used for the recorded runs, with slack) ---- *)
MayHold(t, k, nfiles) == CASE t = "scan" -> 0
                           [] t = "topn" -> k
                           [] t = "sort" -> Max(k, nfiles * MergeBuf)
                           [] OTHER -> 0
MayMove(t, size) == size                       \* for all but lookups: each record once
MayRead(chapter) == Log2(chapter + 1) + 1      \* lookups

Init == /\ tool \in {"scan", "topn", "sort", "lookup"}
        /\ n \in 0..MaxN /\ buf \in Bufs /\ m \in 1..MaxM
        /\ lo \in 0..n /\ len \in 0..(n - lo)
        /\ (tool # "lookup" => lo = 0 /\ len = n) /\ (tool \in {"scan", "lookup"} => m = 1)
        /\ len0 = len /\ base = lo
        /\ pc = "run" /\ pos = 0 /\ bs = 0 /\ be = 0 /\ reads = 0 /\ moved = 0 /\ held = 0 /\ files = 0

Get(p) == IF bs <= p /\ p < be THEN UNCHANGED <<bs, be, reads, moved>>
          ELSE /\ bs' = p /\ be' = Min(p + buf, n) /\ reads' = reads + 1
               /\ moved' = moved + Min(buf, n - p)

Scan == /\ tool = "scan" /\ pc = "run" /\ pos < n
        /\ Get(pos) /\ pos' = pos + 1
        /\ held' = IF Style = "slurp" THEN held + 1 ELSE held
        /\ pc' = IF Style = "back" THEN "back" ELSE "run"
        /\ UNCHANGED <<conf, files, lo, len>>
Back == /\ pc = "back" /\ Get(0) /\ pc' = "run"
        /\ UNCHANGED <<conf, pos, held, files, lo, len>>
Keep == /\ tool = "topn" /\ pos < n
        /\ Get(pos) /\ pos' = pos + 1
        /\ held' = IF Style = "slurp" THEN held + 1 ELSE Min(held + 1, m)
        /\ UNCHANGED <<conf, pc, files, lo, len>>
Chunk == /\ tool = "sort" /\ pc = "run" /\ pos < n
         /\ Get(pos) /\ pos' = pos + 1 /\ held' = held + 1
         /\ pc' = IF held' = m \/ pos' = n THEN "spill" ELSE "run"
         /\ UNCHANGED <<conf, files, lo, len>>
Spill == /\ tool = "sort" /\ pc = "spill"
         /\ files' = files + 1
         /\ held' = IF Style = "keep" THEN held ELSE 0
         /\ pc' = IF pos = n THEN "merge" ELSE IF Style = "keep" THEN "keep" ELSE "run"
         /\ UNCHANGED <<conf, pos, bs, be, reads, moved, lo, len>>
KeepOn == /\ pc = "keep" /\ pos < n /\ Get(pos) /\ pos' = pos + 1 /\ held' = held + 1
          /\ pc' = IF pos' % m = 0 \/ pos' = n THEN "spill" ELSE "keep"
          /\ UNCHANGED <<conf, files, lo, len>>
Merge == /\ tool = "sort" /\ pc = "merge" /\ files > 1
         /\ held' = files * MergeBuf /\ pc' = "done"
         /\ UNCHANGED <<conf, pos, bs, be, reads, moved, files, lo, len>>
(* the comparisons of a lookup: the answer "less" or "not less" depends on the needle, so both are possible *)
Halve == /\ tool = "lookup" /\ pc = "run" /\ len > 0 /\ Style # "linear"
         /\ LET half == len \div 2 IN
            /\ Get(lo + half)
            /\ \/ lo' = lo + half + 1 /\ len' = len - half - 1
               \/ lo' = lo /\ len' = half
         /\ UNCHANGED <<conf, pc, pos, held, files>>
Linear == /\ tool = "lookup" /\ pc = "run" /\ len > 0 /\ Style = "linear"
          /\ Get(lo) /\ lo' = lo + 1 /\ len' = len - 1
          /\ UNCHANGED <<conf, pc, pos, held, files>>
Look == /\ tool = "lookup" /\ pc = "run" /\ len = 0
        /\ IF lo < n THEN Get(lo) ELSE UNCHANGED <<bs, be, reads, moved>>
        /\ pc' = "done" /\ UNCHANGED <<conf, pos, held, files, lo, len>>
Next == Scan \/ Back \/ Keep \/ Chunk \/ Spill \/ KeepOn \/ Merge \/ Halve \/ Linear \/ Look
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------ *)
Memory == held <= MayHold(tool, m, files)
Once == tool # "lookup" => moved <= MayMove(tool, n)
Few == tool = "lookup" => reads <= MayRead(len0) /\ moved <= reads * buf
=============================================================================
