------------------------------ MODULE ExtSort -------------------------------
(* hibp-sort / flat_file::database::disksort (include/flat_file.hpp).         *)
(* The input is split into chunks which fit into memory, each is sorted into  *)
(* a temporary file, then these are merged with a priority queue which holds  *)
(* the head of each chunk. A single chunk is just renamed.                    *)
EXTENDS Base

CONSTANTS Hashes, Counts, MaxLen, MaxChunk

VARIABLES input,    \* the records of the database to be sorted
          mode,     \* "hash": by hash; "count": by count descending, then hash
          chunk,    \* number of records that fit into memory
          pc,       \* "split" | "prime" | "merge" | "done"
          files,    \* contents of the temporary chunk files
          heads,    \* priority queue: set of <<record, index of file>>
          cur,      \* per file: number of records taken from it
          out       \* contents of the sorted file

vars == <<input, mode, chunk, pc, files, heads, cur, out>>

Records == Hashes \X Counts
Before(m, a, b) == IF m = "hash" THEN HashLess(a, b) ELSE CountBefore(a, b)

(* all results of sorting s (std::sort is not stable: any order of equals) *)
Sorts(s, m) == {t \in [1..Len(s) -> Range(s)] : SameBag(s, t) /\ \A i \in 1..(Len(t) - 1) : ~ Before(m, t[i + 1], t[i])}

Init == /\ input \in SeqsUpTo(Records, MaxLen)
        /\ mode \in {"hash", "count"}
        /\ chunk \in 1..MaxChunk
        /\ pc = "split"
        /\ files = <<>> /\ heads = {} /\ cur = <<>> /\ out = <<>>

Done(k) == IF k * chunk < Len(input) THEN k * chunk ELSE Len(input)

SortChunk ==
  /\ pc = "split"
  /\ Len(files) = 0 \/ Done(Len(files)) < Len(input)
  /\ LET from == Done(Len(files))
         to   == Done(Len(files) + 1)
     IN \E t \in Sorts(SubSeq(input, from + 1, to), mode) : files' = Append(files, t)
  /\ UNCHANGED <<input, mode, chunk, pc, heads, cur, out>>

SplitDone ==
  /\ pc = "split" /\ Len(files) > 0 /\ Done(Len(files)) = Len(input)
  /\ IF Len(files) = 1
     THEN /\ out' = files[1] /\ files' = <<>> /\ pc' = "done"       \* rename
          /\ UNCHANGED <<heads, cur>>
     ELSE /\ cur' = [i \in 1..Len(files) |-> 1]                     \* prime the queue
          /\ heads' = {<<files[i][1], i>> : i \in 1..Len(files)}
          /\ pc' = "merge"
          /\ UNCHANGED <<out, files>>
  /\ UNCHANGED <<input, mode, chunk>>

MergeStep ==
  /\ pc = "merge" /\ heads # {}
  /\ \E h \in heads :
       /\ \A g \in heads : ~ Before(mode, g[1], h[1])               \* h is a smallest head
       /\ out' = Append(out, h[1])
       /\ LET i == h[2] IN
          IF cur[i] < Len(files[i])
          THEN /\ heads' = (heads \ {h}) \cup {<<files[i][cur[i] + 1], i>>}
               /\ cur' = [cur EXCEPT ![i] = @ + 1]
          ELSE heads' = heads \ {h} /\ UNCHANGED cur
  /\ UNCHANGED <<input, mode, chunk, pc, files>>

MergeDone ==
  /\ pc = "merge" /\ heads = {}
  /\ pc' = "done" /\ files' = <<>>                                  \* chunk files are removed
  /\ UNCHANGED <<input, mode, chunk, heads, cur, out>>

Next == SortChunk \/ SplitDone \/ MergeStep \/ MergeDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------- properties ------------------------------ *)
(* the contract of the sort, which the recorded runs are judged by, too *)
SortedPermutation(in, o, m) ==
  /\ SameBag(in, o)
  /\ \A i \in 1..(Len(o) - 1) : ~ Before(m, o[i + 1], o[i])

Correct == pc = "done" => SortedPermutation(input, out, mode) /\ files = <<>>
NothingLost == pc \in {"merge"} =>
                 Len(out) + Cardinality(heads)
                 + (LET Rest[i \in 0..Len(files)] ==
                          IF i = 0 THEN 0 ELSE Rest[i - 1] + Len(files[i]) - cur[i]
                    IN Rest[Len(files)]) = Len(input)
Terminates == <>(pc = "done")

(* ------------------------------- generation ------------------------------ *)
(* one scenario per initial state: to be replayed into the real code *)
GenInit == Init /\ Emit([mode |-> mode, chunk |-> chunk, in |-> input])
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
