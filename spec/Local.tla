------------------------------- MODULE Local --------------------------------
(* Who can talk to whom. Servers are started with an address and a port, make *)
(* their preparations, and then listen there, if nobody else does; clients    *)
(* ask, wherever they like. What is asked about is known to the asker and to  *)
(* the server which answers only, while it answers. A download speaks only    *)
(* with a host which has proved to be the published service.                  *)
EXTENDS Base
CONSTANTS Servers, Addrs, Ports, MaxOps
VARIABLES st,       \* per server: off, prep, up, failed
          at,       \* per server: <<address, port>>
          knows,    \* [at, s, q]: server s or the download's host has it in memory, in a file, or on the screen
          dl,       \* the download: idle, tls (connected, nothing proved), trusted, done, refused
          host,     \* who is at the other end of it: real, fake
          ops
vars == <<st, at, knows, dl, host, ops>>

(* "all" is every address of the machine, "far" one which it does not have *)
Covers(x, a) == x = a \/ x = "all"
Conflict(x, y) == x[2] = y[2] /\ (Covers(x[1], y[1]) \/ Covers(y[1], x[1]))
Up(stt) == {s \in DOMAIN stt : stt[s] = "up"}
(* who answers a client which asks at this address: at most one *)
Answers(stt, att, a, p) == {s \in Up(stt) : att[s][2] = p /\ Covers(att[s][1], a)}
Free(stt, att, x) == x[1] # "far" /\ \A s \in Up(stt) : ~ Conflict(att[s], x)

Init == /\ st = [s \in Servers |-> "off"] /\ at = [s \in Servers |-> <<"none", 0>>]
        /\ knows = {} /\ dl = "idle" /\ host = "real" /\ ops = <<>>
Do(o) == Len(ops) < MaxOps /\ ops' = Append(ops, o)

Start == \E s \in Servers, a \in Addrs, p \in Ports :
           /\ st[s] \in {"off", "failed"} /\ Do([op |-> "start", s |-> s, a |-> a, p |-> p])
           /\ st' = [st EXCEPT ![s] = "prep"] /\ at' = [at EXCEPT ![s] = <<a, p>>]
           /\ UNCHANGED <<knows, dl, host>>
Listen == \E s \in Servers :
            /\ st[s] = "prep" /\ Do([op |-> "go", s |-> s])
            /\ st' = [st EXCEPT ![s] = IF Free(st, at, at[s]) THEN "up" ELSE "failed"]
            /\ UNCHANGED <<at, knows, dl, host>>
Stop == \E s \in Servers, how \in {"int", "kill"} :
          /\ st[s] = "up" /\ Do([op |-> how, s |-> s])
          /\ st' = [st EXCEPT ![s] = "off"] /\ knows' = {k \in knows : k.s # s}
          /\ UNCHANGED <<at, dl, host>>
Query(a, p) == <<a, p>>
Ask == \E a \in Addrs \ {"all", "far"}, p \in Ports :
         /\ Do([op |-> "ask", a |-> a, p |-> p])
         /\ knows' = knows \cup {[at |-> "server", s |-> s, q |-> Query(a, p)] : s \in Answers(st, at, a, p)}
         /\ UNCHANGED <<st, at, dl, host>>
Answered == \E k \in knows : knows' = knows \ {k} /\ UNCHANGED <<st, at, dl, host, ops>>

Dial == \E h \in {"real", "fake"} :
          /\ dl = "idle" /\ Do([op |-> "dial", s |-> 0]) /\ dl' = "tls" /\ host' = h /\ UNCHANGED <<st, at, knows>>
Proved == /\ dl = "tls" /\ dl' = (IF host = "real" THEN "trusted" ELSE "refused")
          /\ UNCHANGED <<st, at, knows, host, ops>>
Get == /\ dl = "trusted" /\ dl' = "done" /\ knows' = knows \cup {[at |-> host, s |-> 0, q |-> <<"range", 0>>]}
       /\ UNCHANGED <<st, at, host, ops>>

Next == Start \/ Listen \/ Stop \/ Ask \/ Answered \/ Dial \/ Proved \/ Get
Spec == Init /\ [][Next]_vars

OneAnswers == \A a \in Addrs, p \in Ports : Cardinality(Answers(st, at, a, p)) <= 1
OnlyWhereTold == \A s \in Servers : st[s] # "up" => \A a \in Addrs, p \in Ports : s \notin Answers(st, at, a, p)
OnlyTheAsked == \A k \in knows : k.at = "server" => (st[k.s] = "up" /\ Covers(at[k.s][1], k.q[1]) /\ at[k.s][2] = k.q[2])
Authentic == /\ dl = "done" => host = "real"
             /\ \A k \in knows : k.q[1] = "range" => k.at = "real"
GenNext == Start \/ Listen \/ Stop
GenSpec == Init /\ [][GenNext]_vars
EmitHist == Len(ops) = MaxOps => Emit(ops)
=============================================================================
