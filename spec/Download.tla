------------------------------ MODULE Download ------------------------------
(* The two threads of hibp-download and the network. Files 0..N-1 are asked   *)
(* for from file S on, at most P requests at a time, each up to R+1 times.    *)
(* The network answers in any order and in any grouping; a failed answer may  *)
(* leave bytes behind (buf). The requests thread takes finished transfers     *)
(* from the network, retries failed ones, sends batches of good ones to the   *)
(* writer, and asks for more. The writer waits on a condition variable for    *)
(* batches, the end or a stop request, keeps files in procq and writes those  *)
(* whose turn has come. Either thread may fail; it then stops the other one.  *)
EXTENDS Base
CONSTANTS N, S, P, R, WriterMayFail, FailBudget,
          Record,    \* keep hist (only for generating schedules)
          Locked     \* messages and the end are announced under the mutex of the condition variable
                     \* (FALSE must violate Termination)

Files == S..(N - 1)
VARIABLES
  next,      \* first file which was not asked for
  fly,       \* requests under way
  tries,     \* file -> attempts begun
  buf,       \* file -> attempts whose bytes are in its buffer
  done,      \* transfers finished by the network, in order: <<file, good>>
  batch,     \* good ones collected by the requests thread
  msgq,      \* batches handed over
  procq,     \* files of the writer which wait for their turn
  nextw,     \* the file to write next
  out,       \* files written: <<file, attempts whose bytes it has>>
  torn,      \* the writer failed inside a file
  finished,  \* the requests thread is through
  stopR, stopW,
  rpc, wpc,  \* where the two threads are
  notified,  \* the writer has been woken up
  hist       \* what happened, for the replay (not part of the state seen by TLC)
vars == <<next, fly, tries, buf, done, batch, msgq, procq, nextw, out, torn, finished, stopR, stopW, rpc, wpc, notified>>
view == vars

Note(x) == IF Record THEN Append(hist, x) ELSE hist
Init == /\ next = S /\ fly = {} /\ tries = [f \in Files |-> 0] /\ buf = [f \in Files |-> {}]
        /\ done = <<>> /\ batch = <<>> /\ msgq = <<>> /\ procq = {} /\ nextw = S /\ out = <<>>
        /\ torn = FALSE /\ finished = FALSE /\ stopR = FALSE /\ stopW = FALSE
        /\ rpc = "fill" /\ wpc = "check" /\ notified = FALSE /\ hist = <<>>

Busy == fly \cup {done[i][1] : i \in DOMAIN done}      \* slots in use
SumOf(f) == LET RECURSIVE Sm(_)
                Sm(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + Sm(T \ {x})
            IN Sm(Files)
FailsLeft == FailBudget - (SumOf(tries) - Cardinality({f \in Files : tries[f] > 0}))

(* the network *)
Arrive == /\ rpc = "loop"                              \* callbacks run in the requests thread
          /\ Len(done) < P
          /\ \E f \in fly, good \in BOOLEAN :
               /\ good \/ FailsLeft > 0
               /\ fly' = fly \ {f}
               /\ \E bytes \in {TRUE, good} :          \* a failed transfer may deliver nothing
                    buf' = IF bytes THEN [buf EXCEPT ![f] = @ \cup {tries[f]}] ELSE buf
               /\ done' = Append(done, <<f, good>>)
               /\ hist' = Note(<<"a", f, good>>)
          /\ UNCHANGED <<next, tries, batch, msgq, procq, nextw, out, torn, finished, stopR, stopW, rpc, wpc, notified>>

(* the requests thread *)
Ask(f) == fly \cup {f}
Fill == /\ rpc = "fill"
        /\ LET k == Min(P - Cardinality(Busy), N - next) IN
             IF k > 0
             THEN /\ fly' = fly \cup next..(next + k - 1)
                  /\ tries' = [f \in Files |-> IF f \in next..(next + k - 1) THEN 1 ELSE tries[f]]
                  /\ next' = next + k
             ELSE UNCHANGED <<fly, tries, next>>
        /\ rpc' = IF fly' = {} /\ done = <<>> THEN "end" ELSE "loop"
        /\ UNCHANGED <<buf, done, batch, msgq, procq, nextw, out, torn, finished, stopR, stopW, wpc, notified, hist>>
Handle == /\ rpc = "loop" /\ done # <<>>               \* an event: process_curl_messages
          /\ hist' = Note(<<"h">>)
          /\ IF stopR
             THEN rpc' = "throw"
             ELSE rpc' = "proc"
          /\ UNCHANGED <<next, fly, tries, buf, done, batch, msgq, procq, nextw, out, torn, finished, stopR, stopW, wpc, notified>>
Proc == /\ rpc = "proc" /\ done # <<>>
        /\ LET f == Head(done)[1] good == Head(done)[2] IN
           /\ done' = Tail(done)
           /\ IF good
              THEN batch' = Append(batch, f) /\ UNCHANGED <<fly, tries, buf, rpc>>
              ELSE IF tries[f] = R + 1
              THEN rpc' = "throw" /\ batch' = <<>> /\ UNCHANGED <<fly, tries, buf>>
              ELSE /\ buf' = [buf EXCEPT ![f] = {}]
                   /\ tries' = [tries EXCEPT ![f] = @ + 1]
                   /\ fly' = Ask(f)
                   /\ UNCHANGED <<batch, rpc>>
        /\ UNCHANGED <<next, msgq, procq, nextw, out, torn, finished, stopR, stopW, wpc, notified, hist>>
Mutex == Locked => wpc # "falling"                     \* the writer holds it from Check to Fall
Enq == /\ rpc = "proc" /\ done = <<>>
       /\ batch = <<>> \/ Mutex
       /\ IF batch = <<>> THEN UNCHANGED <<msgq, notified>>
          ELSE msgq' = Append(msgq, batch) /\ notified' = TRUE
       /\ batch' = <<>>
       /\ rpc' = "fill"
       /\ UNCHANGED <<next, fly, tries, buf, done, procq, nextw, out, torn, finished, stopR, stopW, wpc, hist>>
End == /\ rpc = "end" /\ Mutex
       /\ finished' = TRUE /\ notified' = TRUE /\ rpc' = "ok"
       /\ UNCHANGED <<next, fly, tries, buf, done, batch, msgq, procq, nextw, out, torn, stopR, stopW, wpc, hist>>
Throw == /\ rpc = "throw"
         /\ stopW' = TRUE /\ notified' = TRUE /\ rpc' = "failed"
         /\ hist' = Note(<<"t">>)
         /\ UNCHANGED <<next, fly, tries, buf, done, batch, msgq, procq, nextw, out, torn, finished, stopR, wpc>>

(* the writer *)
Check == /\ wpc = "check"                              \* the wait predicate, under the mutex
         /\ IF stopW THEN wpc' = "stopped" /\ UNCHANGED <<msgq, procq>>
            ELSE IF msgq # <<>> \/ finished
            THEN /\ procq' = procq \cup UNION {Range(msgq[i]) : i \in DOMAIN msgq}
                 /\ msgq' = <<>>
                 /\ wpc' = IF finished /\ procq' = {} THEN "ok" ELSE "write"
            ELSE wpc' = "falling" /\ UNCHANGED <<msgq, procq>>
         /\ UNCHANGED <<next, fly, tries, buf, done, batch, nextw, out, torn, finished, stopR, stopW, rpc, notified, hist>>
Fall == /\ wpc = "falling"                             \* asleep: whoever notified before is not heard
        /\ notified' = FALSE                            \* (but a stop request is: it has a callback)
        /\ wpc' = IF stopW THEN "check" ELSE "wait"
        /\ UNCHANGED <<next, fly, tries, buf, done, batch, msgq, procq, nextw, out, torn, finished, stopR, stopW, rpc, hist>>
Wake == /\ wpc = "wait" /\ notified
        /\ wpc' = "check"
        /\ UNCHANGED <<next, fly, tries, buf, done, batch, msgq, procq, nextw, out, torn, finished, stopR, stopW, rpc, notified, hist>>
Begin == /\ wpc = "write"
         /\ IF nextw \in procq
            THEN wpc' = "writing" /\ hist' = Note(<<"w", nextw>>)
            ELSE wpc' = "check" /\ UNCHANGED hist
         /\ UNCHANGED <<next, fly, tries, buf, done, batch, msgq, procq, nextw, out, torn, finished, stopR, stopW, rpc, notified>>
Finish == /\ wpc = "writing"
          /\ out' = Append(out, <<nextw, buf[nextw]>>)
          /\ procq' = procq \ {nextw} /\ nextw' = nextw + 1
          /\ wpc' = "write"
          /\ hist' = Note(<<"e", nextw>>)
          /\ UNCHANGED <<next, fly, tries, buf, done, batch, msgq, torn, finished, stopR, stopW, rpc, notified>>
WFail == /\ wpc = "writing" /\ WriterMayFail
         /\ torn' = TRUE /\ stopR' = TRUE /\ wpc' = "failed"
         /\ hist' = Note(<<"x", nextw>>)
         /\ UNCHANGED <<next, fly, tries, buf, done, batch, msgq, procq, nextw, out, finished, stopW, rpc, notified>>

REnd == rpc \in {"ok", "failed"}
WEnd == wpc \in {"ok", "failed", "stopped"}
Terminated == REnd /\ WEnd
Success == rpc = "ok" /\ wpc = "ok"
Idle == Terminated /\ UNCHANGED <<vars, hist>>

Requests == Fill \/ Handle \/ Proc \/ Enq \/ End \/ Throw
Writer == Check \/ Fall \/ Wake \/ Begin \/ Finish \/ WFail
Next == Arrive \/ Requests \/ Writer \/ Idle
Spec == Init /\ [][Next]_<<vars, hist>>
FairSpec == Spec /\ WF_vars(Arrive) /\ WF_vars(Fill) /\ WF_vars(Handle) /\ WF_vars(Proc) /\ WF_vars(Enq)
                 /\ WF_vars(End) /\ WF_vars(Throw) /\ WF_vars(Check) /\ WF_vars(Fall) /\ WF_vars(Wake) /\ WF_vars(Begin)
                 /\ WF_vars(Finish)

(* P01 *)
InOrder == \A i \in DOMAIN out : out[i][1] = S + i - 1
SuccessIsAll == Success => Len(out) = N - S /\ InOrder
(* P02 *)
WholePrefix == Terminated /\ ~ torn => InOrder
SuccessMeansObtained == Success => ~ torn /\ \A f \in Files : tries[f] > 0 /\ f < nextw
(* P03 *)
Clean == \A i \in DOMAIN out : out[i][2] = {tries[out[i][1]]}
TriesBounded == \A f \in Files : tries[f] <= R + 1
AbortHasCause == rpc = "failed" => stopR \/ \E f \in Files : tries[f] = R + 1
(* P04 *)
Termination == <>Terminated
(* P05 *)
Bounded == Cardinality(fly) <= P
NotAgain == \A i \in DOMAIN out : out[i][1] \notin fly
StopsAsking == [][stopR /\ rpc \notin {"proc", "fill"} => fly' \subseteq fly]_vars
Inside == fly \subseteq Files

EmitHist == Terminated => Emit(hist)
Stop == ~ Terminated
(* schedules in which file N-1 never arrives, and a file which is being written stays so *)
OneFails == Len(done') > Len(done) => LET d == done'[Len(done')] IN d[2] = (d[1] # N - 1)
SlowWriter == wpc = "writing" /\ wpc' # "writing" => REnd
=============================================================================
