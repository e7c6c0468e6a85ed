--------------------------- MODULE ResourcesTrace ---------------------------
(* Judges what recorded runs needed (all sizes in kB, reads are counted).     *)
(* kind "mem": peak memory of a run on a small database and of the same run   *)
(*   on a big one. tool as in Resources; m: records kept (topn), kB of a      *)
(*   chunk (sort), entries of the table of contents (toc), kB in transfer     *)
(*   (download); rec: bytes of a record                                       *)
(* kind "scan": kB read of a file of size kB; kind "lookup": reads, and kB    *)
(*   read, for one query into a chapter (or database) of that many records    *)
EXTENDS Base
VARIABLES l, tool, n, buf, m, pc, pos, bs, be, reads, moved, held, files, lo, len, len0, base
others == <<tool, n, buf, m, pc, pos, bs, be, reads, moved, held, files, lo, len, len0, base>>
Res == INSTANCE Resources WITH MaxN <- 0, Bufs <- {}, MaxM <- 1, MergeBuf <- 32, Style <- "code"
Ev == TraceLog[l]

Slack == 8192
Extra == 5      \* the last record is read to find the size of the table; the record found is read again, ...
KB(records, rec) == (records * rec) \div 1024 + 1
Allowed(e) ==
  CASE e.tool = "scan" -> Res!MayHold("scan", 0, 0)
    [] e.tool = "topn" -> (5 * KB(Res!MayHold("topn", e.m, 0), e.rec)) \div 4
    [] e.tool = "sort" -> (5 * Res!MayHold("sort", e.m, (e.size \div e.m) + 1)) \div 2     \* "about two times"
    [] e.tool = "toc" -> KB(e.m, 4) + KB(e.m, 4) \div 4
    [] e.tool = "download" -> 2 * e.m + 4 * Slack
Few == 24576     \* "a few megabytes", with what any process needs
MemOK(e) == e.rc = 0 /\ e.big - e.small <= Allowed(e) + Slack /\ (e.tool = "scan" => e.small <= Few)

ScanOK(e) == e.rc = 0 /\ e.read <= 3 * Res!MayMove("scan", e.size) + 256     \* std::ifstream reads twice what is needed
LookupOK(e) == /\ e.rc = 0
               /\ e.reads <= Res!MayRead(e.chapter) + Extra
               /\ e.read <= 64 * (Res!MayRead(e.chapter) + Extra)

OK(e) == CASE e.kind = "mem" -> MemOK(e) [] e.kind = "scan" -> ScanOK(e) [] e.kind = "lookup" -> LookupOK(e)
Init == /\ l = 1 /\ ReachInit
        /\ tool = 0 /\ n = 0 /\ buf = 0 /\ m = 0 /\ pc = 0 /\ pos = 0 /\ bs = 0 /\ be = 0 /\ reads = 0
        /\ moved = 0 /\ held = 0 /\ files = 0 /\ lo = 0 /\ len = 0 /\ len0 = 0 /\ base = 0
Next == l <= Len(TraceLog) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED others
Spec == Init /\ [][Next]_<<l, others>>
Constr == Reach(l)
=============================================================================
