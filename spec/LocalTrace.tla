----------------------------- MODULE LocalTrace -----------------------------
(* Follows recorded histories of real servers, lookups and downloads:         *)
(*  start: a server was started (still preparing itself); go: it went on;     *)
(*  int, kill: it was stopped. After each: sees[a][p], which server answered  *)
(*  a client at address a and port p (0: nobody). go has rc (-1: running),    *)
(*  said (it has explained why not) and listens, the sockets it listens on.   *)
(*  trace: the history is over; kept: what a server has printed or stored and *)
(*  contains a query; dials: connections it has opened.                       *)
(*  search: the same for one run of hibp-search.                              *)
(*  fetch: hibp-download had to do with a host whose certificate is good,     *)
(*  self-made, too old or for another name: hosts, whom it asked for; told:   *)
(*  whether it has sent anything beyond the handshake; got: bytes added to    *)
(*  the output; all: the output is the whole download; rc                     *)
EXTENDS Base
VARIABLES l, st, at
L == INSTANCE Local WITH Servers <- {}, Addrs <- {}, Ports <- {}, MaxOps <- 0, knows <- {}, dl <- "idle", host <- "real", ops <- <<>>
Ev == TraceLog[l]
Init == l = 1 /\ ReachInit /\ st = <<>> /\ at = <<>>

Where(a) == IF a = "default" THEN "a" ELSE a        \* without an address, this machine only
Sees(s2, a2) ==
  \A a \in DOMAIN Ev.sees : \A p \in DOMAIN Ev.sees[a] :
     LET who == L!Answers(s2, a2, a, p) IN
     IF who = {} THEN Ev.sees[a][p] = 0 ELSE Ev.sees[a][p] \in who

New == Ev.op = "new" /\ st' = [s \in 1..Ev.n |-> "off"] /\ at' = [s \in 1..Ev.n |-> <<"none", 0>>]
Start == /\ Ev.op = "start" /\ st' = [st EXCEPT ![Ev.s] = "prep"] /\ at' = [at EXCEPT ![Ev.s] = <<Where(Ev.a), Ev.p>>]
         /\ Sees(st', at') = TRUE
Go == /\ Ev.op = "go" /\ st[Ev.s] = "prep"
      /\ IF L!Free(st, at, at[Ev.s])
         THEN Ev.rc = -1 /\ Ev.listens = <<at[Ev.s]>> /\ st' = [st EXCEPT ![Ev.s] = "up"]
         ELSE Ev.rc > 0 /\ Ev.said /\ Ev.listens = <<>> /\ st' = [st EXCEPT ![Ev.s] = "failed"]
      /\ UNCHANGED at /\ Sees(st', at) = TRUE
Stop == /\ Ev.op \in {"int", "kill"} /\ Ev.gone /\ st' = [st EXCEPT ![Ev.s] = "off"] /\ UNCHANGED at
        /\ Sees(st', at) = TRUE
Trace == Ev.op = "trace" /\ Ev.kept = <<>> /\ Ev.dials = <<>> /\ UNCHANGED <<st, at>>
Search == Ev.op = "search" /\ Ev.kept = <<>> /\ Ev.dials = <<>> /\ Ev.listens = <<>> /\ UNCHANGED <<st, at>>
Fetch == /\ Ev.op = "fetch"
         /\ IF Ev.cert = "good" THEN Ev.rc = 0 /\ Ev.all ELSE ~ Ev.told /\ Ev.got = 0 /\ Ev.rc > 0
         /\ \A h \in Range(Ev.hosts) : h = "api.pwnedpasswords.com:443"
         /\ UNCHANGED <<st, at>>
Next == l <= Len(TraceLog) /\ (New \/ Start \/ Go \/ Stop \/ Trace \/ Search \/ Fetch) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st, at>>
OneAnswers == \A s, t \in L!Up(st) : s # t => ~ L!Conflict(at[s], at[t])
Constr == Reach(l)
=============================================================================
