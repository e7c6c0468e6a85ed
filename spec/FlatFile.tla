----------------------------- MODULE FlatFile -------------------------------
(* flat_file::database (include/flat_file.hpp): records of a file are read    *)
(* through one buffer which all iterators of that database share. A read may  *)
(* fail (the file cannot be read just now), leaving the buffer's memory half  *)
(* overwritten. Record k of the file has the value k + 1.                     *)
EXTENDS Base
CONSTANTS MaxN, MaxBuf, Its, MaxOps

VARIABLES n, bufsize,
          bstart, bend,     \* records bstart..bend-1 (from 0) are said to be in the buffer
          mem,              \* what really is in its memory: value per slot
          pos,              \* position of each iterator
          broken,           \* reads fail at present
          res,              \* what the last operation returned
          ops               \* history, for the scenarios
vars == <<n, bufsize, bstart, bend, mem, pos, broken, res, ops>>

ERR == -1
NONE == -2
JUNK == -3

Init == /\ n \in 0..MaxN /\ bufsize \in 1..MaxBuf
        /\ bstart = 0 /\ bend = 0 /\ mem = [k \in 0..(bufsize - 1) |-> JUNK]
        /\ pos = [i \in Its |-> 0]
        /\ broken = FALSE /\ res = NONE /\ ops = <<>>

Log(op) == Len(ops) < MaxOps /\ ops' = Append(ops, op)

(* the buffer after an attempt to read position p *)
Hit(p) == p >= bstart /\ p < bend
Read(p) ==
  IF Hit(p) THEN UNCHANGED <<bstart, bend, mem>> /\ res' = mem[p - bstart]
  ELSE IF p >= n THEN UNCHANGED <<bstart, bend, mem>> /\ res' = ERR
  ELSE LET m == Min(bufsize, n - p) IN
       IF broken
       THEN \E got \in 0..(m - 1) :     \* `got` whole records arrived, the next one partly
              /\ mem' = [k \in DOMAIN mem |-> IF k < got THEN p + k + 1 ELSE IF k = got THEN JUNK ELSE mem[k]]
              /\ bstart' = 0 /\ bend' = 0 /\ res' = ERR
       ELSE /\ mem' = [k \in DOMAIN mem |-> IF k < m THEN p + k + 1 ELSE mem[k]]
            /\ bstart' = p /\ bend' = p + m
            /\ res' = p + 1

Deref(i) == Read(pos[i]) /\ Log(<<"deref", i, 0>>) /\ UNCHANGED <<n, bufsize, pos, broken>>
Get(p) == p < n /\ Read(p) /\ Log(<<"get", p, 0>>) /\ UNCHANGED <<n, bufsize, pos, broken>>
Back == n > 0 /\ Read(n - 1) /\ Log(<<"back", 0, 0>>) /\ UNCHANGED <<n, bufsize, pos, broken>>
Move(i, d) == /\ pos[i] + d \in 0..n
              /\ pos' = [pos EXCEPT ![i] = @ + d]
              /\ res' = NONE /\ Log(<<"move", i, d>>)
              /\ UNCHANGED <<n, bufsize, bstart, bend, mem, broken>>
Copy(i, j) == /\ i # j
              /\ pos' = [pos EXCEPT ![i] = pos[j]]
              /\ res' = NONE /\ Log(<<"copy", i, j>>)
              /\ UNCHANGED <<n, bufsize, bstart, bend, mem, broken>>
Compare(i, j) == /\ res' = IF pos[i] = pos[j] THEN 1 ELSE 0
                 /\ Log(<<"cmp", i, j>>)
                 /\ UNCHANGED <<n, bufsize, bstart, bend, mem, pos, broken>>
Reset(i, e) == /\ pos' = [pos EXCEPT ![i] = IF e = 1 THEN n ELSE 0]
               /\ res' = NONE /\ Log(<<"reset", i, e>>)
               /\ UNCHANGED <<n, bufsize, bstart, bend, mem, broken>>
Break == /\ ~ broken /\ broken' = TRUE /\ res' = NONE /\ Log(<<"break", 0, 0>>)
         /\ UNCHANGED <<n, bufsize, bstart, bend, mem, pos>>
Repair == /\ broken /\ broken' = FALSE /\ res' = NONE /\ Log(<<"repair", 0, 0>>)
          /\ UNCHANGED <<n, bufsize, bstart, bend, mem, pos>>

Next == \/ \E i \in Its : Deref(i)
        \/ \E p \in 0..(MaxN - 1) : Get(p)
        \/ Back
        \/ \E i \in Its, d \in {-2, -1, 1, 2, 3} : Move(i, d)
        \/ \E i, j \in Its : Copy(i, j)
        \/ \E i, j \in Its : Compare(i, j)
        \/ \E i \in Its, e \in 0..1 : Reset(i, e)
        \/ Break \/ Repair
Spec == Init /\ [][Next]_vars

(* P16 *)
Last == ops[Len(ops)]
ReadsOK ==
  (ops # <<>> /\ Last[1] \in {"deref", "get", "back"}) =>
     LET p == IF Last[1] = "deref" THEN pos[Last[2]] ELSE IF Last[1] = "get" THEN Last[2] ELSE n - 1 IN
     \/ p < n /\ res = p + 1
     \/ p < n /\ broken /\ res = ERR
     \/ p = n /\ res = ERR
BufferOK == \A p \in bstart..(bend - 1) : p < n /\ mem[p - bstart] = p + 1

View == <<n, bufsize, bstart, bend, mem, pos, broken, res, IF ops = <<>> THEN 0 ELSE Last, Len(ops)>>
GenEmit == Len(ops) = MaxOps => Emit([n |-> n, buf |-> bufsize, ops |-> ops])
=============================================================================
