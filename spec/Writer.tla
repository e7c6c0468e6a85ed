------------------------------- MODULE Writer -------------------------------
(* How the tools write their output: items are collected in a buffer of the   *)
(* program (stream_writer, AppCap items), handed to a C++ stream with its own *)
(* buffer (StreamCap items) and from there to the disk by write calls, each   *)
(* of which may be complete, short (and is then continued) or fail; a failure *)
(* may last or pass. How the program notices:                                 *)
(*   "throw"  every failed stream operation raises an exception               *)
(*   "final"  the state of the stream is checked after a last flush           *)
(*   "none"   nobody looks (must violate P17, to show that the model can)     *)
(*   "early"  the stream is checked before its buffer was written out         *)
EXTENDS Base
CONSTANTS MaxItems, AppCap, StreamCap, MaxFaults, Styles

VARIABLES style, total, made, app, stream, disk, bad, faults, pc, rc, todo
vars == <<style, total, made, app, stream, disk, bad, faults, pc, rc, todo>>

Init == /\ style \in Styles /\ total \in 0..MaxItems
        /\ made = 0 /\ app = <<>> /\ stream = <<>> /\ disk = <<>> /\ bad = FALSE
        /\ faults = MaxFaults /\ pc = "make" /\ rc = -1
        /\ todo = <<>>           \* what a write call in progress still has to write

keep == UNCHANGED <<style, total>>

Make == /\ pc = "make" /\ made < total /\ Len(app) < AppCap
        /\ made' = made + 1 /\ app' = Append(app, made + 1)
        /\ keep /\ UNCHANGED <<stream, disk, bad, faults, pc, rc, todo>>

(* the buffer of the program is handed to the stream *)
HandOver(next) ==
  /\ app' = <<>>
  /\ IF bad THEN /\ UNCHANGED <<stream, todo>> /\ pc' = next      \* the stream ignores it
     ELSE IF Len(stream) + Len(app) <= StreamCap
     THEN /\ stream' = stream \o app /\ UNCHANGED todo /\ pc' = next
     ELSE /\ todo' = stream \o app /\ stream' = <<>> /\ pc' = (IF next = "make" THEN "write" ELSE "lastwrite")
  /\ keep /\ UNCHANGED <<made, disk, bad, faults, rc>>
Full == pc = "make" /\ made < total /\ Len(app) = AppCap /\ HandOver("make")
Last == pc = "make" /\ made = total /\ HandOver("flush")

Back(p) == IF p = "write" THEN "make" ELSE IF p = "lastwrite" THEN "flush" ELSE "check"
Fail(next) == IF style = "throw" THEN "unwind" ELSE next

(* one write call: k of the items get through *)
WriteOK == /\ pc \in {"write", "lastwrite", "flushwrite"} /\ todo # <<>>
           /\ \E k \in 1..Len(todo) :
                /\ disk' = disk \o SubSeq(todo, 1, k)
                /\ todo' = SubSeq(todo, k + 1, Len(todo))
           /\ keep /\ UNCHANGED <<made, app, stream, bad, faults, pc, rc>>
WriteFails == /\ pc \in {"write", "lastwrite", "flushwrite"} /\ todo # <<>> /\ faults > 0
              /\ faults' = faults - 1 /\ bad' = TRUE /\ todo' = <<>>
              /\ pc' = Fail(Back(pc))
              /\ keep /\ UNCHANGED <<made, app, stream, disk, rc>>
Written == /\ pc \in {"write", "lastwrite", "flushwrite"} /\ todo = <<>>
           /\ pc' = Back(pc)
           /\ keep /\ UNCHANGED <<made, app, stream, disk, bad, faults, rc, todo>>

(* the stream is flushed, its state checked *)
Flush == /\ pc = "flush"
         /\ IF style = "early"
            THEN /\ pc' = "exit" /\ rc' = (IF bad THEN 1 ELSE 0) /\ UNCHANGED <<stream, todo>>
            ELSE IF bad THEN /\ pc' = "check" /\ UNCHANGED <<stream, todo, rc>>
            ELSE /\ todo' = stream /\ stream' = <<>> /\ pc' = "flushwrite" /\ UNCHANGED rc
         /\ keep /\ UNCHANGED <<made, app, disk, bad, faults>>
Check == /\ pc = "check" /\ pc' = "exit"
         /\ rc' = (IF bad /\ style # "none" THEN 1 ELSE 0)
         /\ keep /\ UNCHANGED <<made, app, stream, disk, bad, faults, todo>>
Unwind == /\ pc = "unwind" /\ pc' = "exit" /\ rc' = 1
          /\ keep /\ UNCHANGED <<made, app, stream, disk, bad, faults, todo>>
(* destructors write what is left in the buffer of the stream; nobody sees a failure *)
Exit == /\ pc = "exit" /\ pc' = "gone"
        /\ \/ faults > 0 /\ stream # <<>> /\ faults' = faults - 1 /\ UNCHANGED disk
           \/ disk' = disk \o stream /\ UNCHANGED faults
        /\ stream' = <<>>
        /\ keep /\ UNCHANGED <<made, app, bad, rc, todo>>

Next == Make \/ Full \/ Last \/ WriteOK \/ WriteFails \/ Written \/ Flush \/ Check \/ Unwind \/ Exit
Spec == Init /\ [][Next]_vars

(* P17 *)
SuccessIsComplete == (pc = "gone" /\ rc = 0) => disk = [k \in 1..total |-> k]
(* without a fault it succeeds *)
GoodSucceeds == (pc = "gone" /\ faults = MaxFaults) => rc = 0 /\ disk = [k \in 1..total |-> k]
(* what is on the disk before the exit is the beginning of the output, or there was a fault *)
InOrder == pc # "gone" => disk = [k \in 1..Len(disk) |-> k]

(* scenarios: the number of items in units of AppCap, the fault, its kind *)
GenInit == /\ Init
           /\ \A n \in 1..3, kind \in {"errno", "once", "short", "shortonce", "eintr", "limit"} :
                Emit([items |-> total, write |-> n, kind |-> kind])
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
