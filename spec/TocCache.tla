------------------------------ MODULE TocCache ------------------------------
(* The stored table of contents (src/toc.cpp: toc_build, load, save) over a   *)
(* history of database updates, searches, crashes and full disks. Time passes *)
(* in ticks, the resolution of file times: several things may happen within   *)
(* one. The database has a version; its number of ToC entries may stay the    *)
(* same across an update (Size). Searches work in steps, during each of which *)
(* they may be killed; several processes may search at the same time, each of *)
(* them writing a file of its own before it takes the final name. Nothing     *)
(* updates the database meanwhile (README: the ToC is built from the database *)
(* as it is). Nested: one which starts during another finishes before it (the *)
(* histories which are replayed).                                             *)
EXTENDS Base
CONSTANTS Bits, MaxVer, MaxTick, MaxOps, Procs, Nested

VARIABLES now, ver, dbtime,
          file,      \* per bits: [ver, time, full] or NoFile; the stored ToC
          tmp,       \* per process: the file being written
          pc, sb,    \* the running searches: step, bits
          outer,     \* the process which waits (Nested); 0: none
          used,      \* per process, version of the ToC its search has answered with; 0: none yet
          disk,      \* "ok" | "full"
          ops, mine  \* history; per process, where its search is in it
vars == <<now, ver, dbtime, file, tmp, pc, sb, outer, used, disk, ops, mine>>

NoFile == [ver |-> 0, time |-> 0, full |-> FALSE]
Size(v) == <<3, 3, 4, 3, 2, 2>>[v]        \* number of entries of each version
Idle == \A p \in Procs : pc[p] = "idle"

Init == /\ now = 1 /\ ver = 1 /\ dbtime = 1
        /\ file = [b \in Bits |-> NoFile] /\ tmp = [p \in Procs |-> NoFile]
        /\ pc = [p \in Procs |-> "idle"] /\ sb = [p \in Procs |-> 0] /\ outer = 0
        /\ used = [p \in Procs |-> 0] /\ disk = "ok" /\ ops = <<>> /\ mine = [p \in Procs |-> 0]

\* <<what, argument, where it was killed, where the other search was then>>
Log(o) == Len(ops) < MaxOps /\ ops' = Append(ops, o)
Tick == /\ Idle /\ now < MaxTick /\ now' = now + 1 /\ Log(<<"tick", 0, "", "">>)
        /\ UNCHANGED <<ver, dbtime, file, tmp, pc, sb, outer, used, disk, mine>>
Update == /\ Idle /\ ver < MaxVer /\ ver' = ver + 1 /\ dbtime' = now /\ used' = [p \in Procs |-> 0]
          /\ Log(<<"update", ver + 1, "", "">>)
          /\ UNCHANGED <<now, file, tmp, pc, sb, outer, disk, mine>>
SetDisk == /\ Idle /\ disk' = (IF disk = "ok" THEN "full" ELSE "ok") /\ Log(<<"disk", 0, disk', "">>)
           /\ UNCHANGED <<now, ver, dbtime, file, tmp, pc, sb, outer, used, mine>>
Search(p) == /\ pc[p] = "idle"
             /\ \A q \in Procs : q < p => pc[q] # "idle"          \* they are all alike
             /\ LET other == {q \in Procs : pc[q] \notin {"idle", "check"}} IN
                /\ \E b \in Bits :
                      /\ sb' = [sb EXCEPT ![p] = b]
                      /\ Log(<<"search", b, "", IF other = {} THEN "" ELSE pc[CHOOSE q \in other : TRUE]>>)
                /\ Nested => (Idle \/ other # {})
                /\ outer' = IF other = {} THEN 0 ELSE CHOOSE q \in other : TRUE
             /\ mine' = [mine EXCEPT ![p] = Len(ops) + 1]
             /\ used' = [used EXCEPT ![p] = 0] /\ pc' = [pc EXCEPT ![p] = "check"]
             /\ UNCHANGED <<now, ver, dbtime, file, tmp, disk>>

\* p takes the step s, then is at t
Step(p, s, t) == /\ pc[p] = s /\ pc' = [pc EXCEPT ![p] = t]
                 /\ Nested => (outer # p \/ \A q \in Procs \ {p} : pc[q] = "idle")
                 /\ UNCHANGED <<now, ver, dbtime, sb, outer, disk, mine>>
Trusted(f) == f.ver # 0 /\ f.time > dbtime /\ f.full /\ Size(f.ver) = Size(ver)
Check(p) == LET f == file[sb[p]] IN
            /\ Step(p, "check", IF Trusted(f) THEN "idle" ELSE "build")
            /\ used' = [used EXCEPT ![p] = IF Trusted(f) THEN f.ver ELSE @]
            /\ UNCHANGED <<file, tmp, ops>>
Build(p) == /\ Step(p, "build", "open") /\ used' = [used EXCEPT ![p] = ver] /\ UNCHANGED <<file, tmp, ops>>
OpenTmp(p) == /\ Step(p, "open", "write") /\ tmp' = [tmp EXCEPT ![p] = [ver |-> ver, time |-> now, full |-> FALSE]]
              /\ UNCHANGED <<file, used, ops>>
Write(p) == /\ Step(p, "write", IF disk = "full" THEN "idle" ELSE "rename")
            /\ tmp' = [tmp EXCEPT ![p] = IF disk = "full" THEN NoFile           \* removed, with a warning
                                         ELSE [@ EXCEPT !.full = TRUE]]
            /\ UNCHANGED <<file, used, ops>>
Rename(p) == /\ Step(p, "rename", "idle") /\ file' = [file EXCEPT ![sb[p]] = tmp[p]]
             /\ tmp' = [tmp EXCEPT ![p] = NoFile] /\ UNCHANGED <<used, ops>>
Crash(p) == /\ pc[p] # "check" /\ Step(p, pc[p], "idle") /\ pc[p] # "idle"
            /\ ops' = [ops EXCEPT ![mine[p]][3] = pc[p]]
            /\ used' = [used EXCEPT ![p] = 0] /\ tmp' = [tmp EXCEPT ![p] = NoFile]   \* nobody looks at it
            /\ UNCHANGED file
Next == \/ Tick \/ Update \/ SetDisk
        \/ \E p \in Procs : \/ Search(p) \/ Check(p) \/ Build(p) \/ OpenTmp(p) \/ Write(p) \/ Rename(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars

(* P09 *)
Current == \A p \in Procs : used[p] # 0 => used[p] = ver
StoredWhole == \A b \in Bits : file[b].ver # 0 => file[b].full
NeverNewer == \A b \in Bits : file[b].time > dbtime => file[b].ver = ver

View == <<now, ver, dbtime, file, tmp, pc, sb, outer, used, disk, Len(ops)>>
GenEmit == (Len(ops) = MaxOps /\ Idle) => Emit(ops)
=============================================================================
