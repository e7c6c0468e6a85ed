------------------------------- MODULE Resume -------------------------------
(* A binary download into one file, cut off at any record (or in the middle   *)
(* of one) and resumed, any number of times, while prefix files on the server *)
(* gain records. A record is <<file, key>>; with Trunc the keys 2k-1 and 2k   *)
(* are stored as the same truncated hash k.                                   *)
EXTENDS Base
CONSTANTS N, K, Trunc, MaxUpdates, MaxCrashes,
          AnyTime     \* the server changes at any time, or only between two runs
Files == 0..(N - 1)
Keys == 1..K
VARIABLES cont,     \* what the server has now: file -> set of keys
          past,     \* file -> contents it ever had
          disk,     \* records in the output file
          torn,     \* and a part of one more
          run,      \* "off", "on", "done", "refused"
          todo,     \* files this run will still ask for
          buf,      \* records received but not on disk
          ups, crashes, hist
vars == <<cont, past, disk, torn, run, todo, buf, ups, crashes, hist>>
view == <<cont, past, disk, torn, run, todo, buf, ups, crashes>>

T(k) == IF Trunc THEN (k + 1) \div 2 ELSE k
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Block(f, S) == LET s == Sorted(S) IN [i \in 1..Len(s) |-> <<f, T(s[i])>>]

Init == /\ cont \in [Files -> SUBSET Keys]
        /\ past = [f \in Files |-> {cont[f]}]
        /\ disk = <<>> /\ torn = FALSE /\ run = "on" /\ todo = 0..(N - 1) /\ buf = <<>>
        /\ ups = 0 /\ crashes = 0 /\ hist = <<>>

First(S) == CHOOSE x \in S : \A y \in S : x <= y
(* the next file arrives and goes to the writer *)
Fetch == /\ run = "on" /\ buf = <<>> /\ todo # {}
         /\ LET f == First(todo) IN buf' = Block(f, cont[f]) /\ todo' = todo \ {f}
         /\ UNCHANGED <<cont, past, disk, torn, run, ups, crashes, hist>>
Write == /\ run = "on" /\ buf # <<>>
         /\ disk' = Append(disk, Head(buf)) /\ buf' = Tail(buf)
         /\ UNCHANGED <<cont, past, torn, run, todo, ups, crashes, hist>>
Finish == /\ run = "on" /\ buf = <<>> /\ todo = {}
          /\ run' = "done"
          /\ UNCHANGED <<cont, past, disk, torn, todo, buf, ups, crashes, hist>>
(* the process dies, now or in the middle of the next record *)
Crash == /\ run = "on" /\ crashes < MaxCrashes
         /\ torn' \in {FALSE, buf # <<>>}
         /\ run' = "off" /\ crashes' = crashes + 1 /\ buf' = <<>> /\ todo' = {}
         /\ hist' = Append(hist, <<"cut", Len(disk), torn'>>)
         /\ UNCHANGED <<cont, past, disk, ups>>
Update == /\ ups < MaxUpdates /\ (AnyTime \/ run = "off")
          /\ \E f \in Files, k \in Keys :
               /\ k \notin cont[f]
               /\ cont' = [cont EXCEPT ![f] = @ \cup {k}]
               /\ past' = [past EXCEPT ![f] = @ \cup {cont[f] \cup {k}}]
               /\ hist' = Append(hist, <<"gain", f, k>>)
          /\ ups' = ups + 1
          /\ UNCHANGED <<disk, torn, run, todo, buf, crashes>>

(* --resume: look at the last record and at its file as it is now *)
Last(s) == s[Len(s)]
RECURSIVE RunStart(_, _)
RunStart(s, i) == IF i > 1 /\ s[i - 1] = s[i] THEN RunStart(s, i - 1) ELSE i
Resume ==
  /\ run = "off"
  /\ torn' = FALSE                               \* a torn record is cut off first
  /\ IF disk = <<>>
     THEN disk' = <<>> /\ todo' = Files /\ run' = "on"
     ELSE LET f == Last(disk)[1]
              b == Block(f, cont[f])
          IN IF ~ Trunc /\ b # <<>> /\ Last(b) = Last(disk)
             THEN /\ disk' = disk
                  /\ todo' = {g \in Files : g > f}
                  /\ run' = IF todo' = {} THEN "refused" ELSE "on"    \* nothing to do
             ELSE IF b # <<>> /\ \E i \in DOMAIN disk : disk[i] = b[1]
             THEN LET i == CHOOSE i \in DOMAIN disk : disk[i] = b[1] /\ \A j \in DOMAIN disk : disk[j] = b[1] => j <= i
                  IN disk' = SubSeq(disk, 1, RunStart(disk, i) - 1) /\ todo' = {g \in Files : g >= f} /\ run' = "on"
             ELSE disk' = disk /\ todo' = {} /\ run' = "refused"
  /\ hist' = Append(hist, <<"resume">>)
  /\ UNCHANGED <<cont, past, buf, ups, crashes>>
Over == run \in {"done", "refused"} /\ UNCHANGED vars
Next == Fetch \/ Write \/ Finish \/ Crash \/ Update \/ Resume \/ Over
Spec == Init /\ [][Next]_vars

(* the records of file f in s, which must be consecutive *)
Part(s, f) == SelectSeq(s, LAMBDA x : x[1] = f)
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
LastFile(s) == IF s = <<>> THEN -1 ELSE Last(s)[1]
(* the beginning of a good download: each file is in one version *)
Beginning(s) == /\ Ascending(s)
                /\ \A f \in Files :
                     IF f < LastFile(s) THEN \E S \in past[f] : Part(s, f) = Block(f, S)
                     ELSE IF f = LastFile(s) THEN \E S \in past[f] : IsPrefix(Part(s, f), Block(f, S))
                     ELSE TRUE
Whole(s) == Ascending(s) /\ \A f \in Files : \E S \in past[f] : Part(s, f) = Block(f, S)
Full == LET RECURSIVE Cat(_)
            Cat(f) == IF f = N THEN <<>> ELSE Block(f, cont[f]) \o Cat(f + 1)
        IN Cat(0)
AlwaysBeginning == Beginning(disk)
DoneIsWhole == run = "done" => Whole(disk)
DoneIsFull == run = "done" /\ ups = 0 => disk = Full
RefusalHasCause == run = "refused" => ups > 0 \/ disk = Full
EmitHist == run \in {"done", "refused"} => Emit([cont |-> [f \in 1..N |-> Sorted(CHOOSE S \in past[f - 1] : \A S2 \in past[f - 1] : S \subseteq S2)], hist |-> hist])
=============================================================================
