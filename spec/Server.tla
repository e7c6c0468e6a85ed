------------------------------- MODULE Server -------------------------------
(* The server (src/srv/server.cpp): worker threads take requests from         *)
(* keep-alive connections; each looks a hash up by binary search, reading the *)
(* database through the buffer of a database object in steps (is it in the    *)
(* buffer? seek, read, use). Reads may fail. A connection has at most one     *)
(* request in work; others wait in its pipeline; an error closes it. A client *)
(* may go away at any time, also while its request is in work: that request is *)
(* worked off and its answer is lost.                                         *)
(* Record k (from 0) has hash 2k + 2 and count k + 1.                         *)
(* Shared = TRUE gives all workers the same database object, which must       *)
(* violate the properties (used to show that the model can).                  *)
EXTENDS Base
CONSTANTS Workers, Conns, N, B, MaxReqs, MaxFaults, MaxLeaves, Shared

VARIABLES sent,      \* requests of each connection: a hash, or BAD
          next,      \* number of the request in work or next to be
          out,       \* responses of each connection: a count, -1, 400 or 500
          conn,      \* "idle", "busy" or "closed"
          wk,        \* worker: [pc, c, lo, len, pos]
          obj,       \* database objects: buffer [bs, be, mem] and stream position
          faulted,   \* <<connection, request>> during which a read failed
          gone       \* connections whose clients have left
vars == <<sent, next, out, conn, wk, obj, faulted, gone>>

BAD == -1
NOTFOUND == -1
E400 == 1400
E500 == 1500
JUNK == -9
Idle == [pc |-> "idle", c |-> 0, lo |-> 0, len |-> 0, pos |-> 0]
Objs == IF Shared THEN {0} ELSE Workers
ObjOf(w) == IF Shared THEN 0 ELSE w
HashAt(k) == 2 * k + 2
Needles == 0..(2 * N + 2)

Init == /\ sent \in [Conns -> SeqsUpTo(Needles \cup {BAD}, MaxReqs)]
        /\ next = [c \in Conns |-> 1] /\ out = [c \in Conns |-> <<>>]
        /\ conn = [c \in Conns |-> "idle"]
        /\ wk = [w \in Workers |-> Idle]
        /\ obj = [o \in Objs |-> [bs |-> 0, be |-> 0, mem |-> [k \in 0..(B - 1) |-> JUNK], stream |-> 0]]
        /\ faulted = {} /\ gone = {}

Needle(w) == sent[wk[w].c][next[wk[w].c]]

Respond(w, x) ==
  /\ LET c == wk[w].c IN
     /\ out' = IF c \in gone THEN out ELSE [out EXCEPT ![c] = Append(@, x)]
     /\ next' = [next EXCEPT ![c] = @ + 1]
     /\ conn' = [conn EXCEPT ![c] = IF x \in {E400, E500} THEN "closed" ELSE "idle"]
  /\ wk' = [wk EXCEPT ![w] = Idle]

Take(w, c) ==
  /\ wk[w].pc = "idle" /\ conn[c] = "idle" /\ next[c] <= Len(sent[c]) /\ c \notin gone
  /\ conn' = [conn EXCEPT ![c] = "busy"]
  /\ wk' = [wk EXCEPT ![w] = [pc |-> IF sent[c][next[c]] = BAD THEN "bad" ELSE "probe",
                              c |-> c, lo |-> 0, len |-> N, pos |-> 0]]
  /\ UNCHANGED <<sent, next, out, obj, faulted, gone>>
Refuse(w) == wk[w].pc = "bad" /\ Respond(w, E400) /\ UNCHANGED <<sent, obj, faulted, gone>>

(* the next record to look at *)
Probe(w) ==
  /\ wk[w].pc = "probe"
  /\ LET s == wk[w]
         p == IF s.len > 0 THEN s.lo + s.len \div 2 ELSE s.lo
         o == obj[ObjOf(w)] IN
     IF s.len = 0 /\ s.lo = N THEN Respond(w, NOTFOUND)
     ELSE /\ wk' = [wk EXCEPT ![w].pos = p, ![w].pc = IF p >= o.bs /\ p < o.be THEN "use" ELSE "seek"]
          /\ UNCHANGED <<next, out, conn>>
  /\ UNCHANGED <<sent, obj, faulted, gone>>
Seek(w) ==
  /\ wk[w].pc = "seek"
  /\ obj' = [obj EXCEPT ![ObjOf(w)].stream = wk[w].pos]
  /\ wk' = [wk EXCEPT ![w].pc = "read"]
  /\ UNCHANGED <<sent, next, out, conn, faulted, gone>>
Read(w) ==
  /\ wk[w].pc = "read"
  /\ LET o == obj[ObjOf(w)]
         m == Min(B, N - wk[w].pos) IN       \* records asked for
     obj' = [obj EXCEPT ![ObjOf(w)] =
               [bs |-> wk[w].pos, be |-> wk[w].pos + m, stream |-> o.stream + m,
                mem |-> [k \in 0..(B - 1) |-> IF k < m THEN (IF o.stream + k < N THEN HashAt(o.stream + k) ELSE JUNK)
                                              ELSE o.mem[k]]]]
  /\ wk' = [wk EXCEPT ![w].pc = "use"]
  /\ UNCHANGED <<sent, next, out, conn, faulted, gone>>
ReadFails(w) ==
  /\ wk[w].pc = "read" /\ Cardinality(faulted) < MaxFaults
  /\ faulted' = faulted \cup {<<wk[w].c, next[wk[w].c]>>}
  /\ obj' = [obj EXCEPT ![ObjOf(w)].bs = 0, ![ObjOf(w)].be = 0, ![ObjOf(w)].mem[0] = JUNK]
  /\ Respond(w, E500) /\ UNCHANGED <<sent, gone>>
Use(w) ==
  /\ wk[w].pc = "use"
  /\ LET s == wk[w]
         o == obj[ObjOf(w)]
         k == s.pos - o.bs
         v == IF k \in 0..(B - 1) THEN o.mem[k] ELSE JUNK IN
     IF s.len > 0
     THEN /\ wk' = [wk EXCEPT ![w].pc = "probe",
                      ![w].lo = IF v < Needle(w) THEN s.pos + 1 ELSE s.lo,
                      ![w].len = IF v < Needle(w) THEN s.len - s.len \div 2 - 1 ELSE s.len \div 2]
          /\ UNCHANGED <<next, out, conn>>
     ELSE Respond(w, IF v = Needle(w) THEN s.pos + 1 ELSE NOTFOUND)
  /\ UNCHANGED <<sent, obj, faulted, gone>>

Step(w) == Refuse(w) \/ Probe(w) \/ Seek(w) \/ Read(w) \/ ReadFails(w) \/ Use(w)
Leave(c) == /\ c \notin gone /\ Cardinality(gone) < MaxLeaves
            /\ gone' = gone \cup {c}
            /\ UNCHANGED <<sent, next, out, conn, wk, obj, faulted>>
Work == \E w \in Workers : Step(w) \/ \E c \in Conns : Take(w, c)
Next == Work \/ \E c \in Conns : Leave(c)
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ WF_vars(Work)

(* ------------------------------ properties -------------------------------- *)
(* what the request gets on an idle, freshly started server *)
Alone(r) == IF r = BAD THEN E400
            ELSE IF r % 2 = 0 /\ r \in 2..(2 * N) THEN r \div 2 ELSE NOTFOUND
Independent ==
  \A c \in Conns : \A i \in DOMAIN out[c] :
     \/ out[c][i] = Alone(sent[c][i])
     \/ out[c][i] = E500 /\ <<c, i>> \in faulted
ClosedOnlyByErrors ==
  \A c \in Conns : /\ Len(out[c]) <= Len(sent[c])
                   /\ c \notin gone => (conn[c] = "closed") <=> (out[c] # <<>> /\ out[c][Len(out[c])] \in {E400, E500})
OneAtATime == \A v, w \in Workers : v # w /\ wk[v].pc # "idle" /\ wk[w].pc # "idle" => wk[v].c # wk[w].c
AllServed == \A c \in Conns : c \in gone \/ conn[c] = "closed" \/ Len(out[c]) = Len(sent[c])
Served == <>AllServed
(* a worker whose client has left becomes free again *)
Freed == \A w \in Workers : []<>(wk[w].pc = "idle")

(* ------------------------------ scenarios --------------------------------- *)
GenInit == Init /\ Emit([sent |-> [i \in 1..Cardinality(Conns) |-> sent[i]]])
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
