------------------------------ MODULE Pipeline ------------------------------
(* A user's work with the tools together: what is published changes, and      *)
(* databases (slots: files, binary or text) are downloaded, torn by crashes,  *)
(* resumed, converted, sorted, reduced, put together, and asked. The meaning  *)
(* of each step is a function of the contents of its inputs only; the laws    *)
(* below say how the steps compose. PipelineTrace uses the same operators on  *)
(* what the real tools did.                                                   *)
EXTENDS Base
CONSTANTS NF, K, Slots, Counts, MaxOps, Limits

VARIABLES pub,     \* per prefix file the sequence of its records <<hash, count>>
          slot,    \* the users files
          ops      \* what has been done so far
vars == <<pub, slot, ops>>

(* ----------------------- contents and what tools do ---------------------- *)
LexBefore(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Canon(r) == SortSeq(r, LexBefore)
ByCount(r) == SortSeq(r, CountBefore)
First(r, n) == SubSeq(r, 1, Min(n, Len(r)))
RECURSIVE Joined(_, _)
Joined(p, lim) == IF lim = 0 THEN <<>> ELSE Joined(p, lim - 1) \o p[lim]
Published(p, lim) == Joined(p, lim)
Top(r, n) == Canon(First(ByCount(r), n))

HSorted(r) == \A i \in 1..(Len(r) - 1) : r[i][1] <= r[i + 1][1]
CSorted(r) == \A i \in 1..(Len(r) - 1) : ~ CountBefore(r[i + 1], r[i])

(* contents with records of equal hash may come out in any order *)
SortOf(r, m, out) == /\ Len(out) = Len(r) /\ Canon(out) = Canon(r)
                     /\ IF m = "hash" THEN HSorted(out) ELSE CSorted(out)
TopOf(r, n, out) == HSorted(out) /\ Canon(out) = Top(r, n)
Lookup(r, h) ==      \* what a search in strictly sorted records answers; -1: not found
  LET at == {i \in DOMAIN r : r[i][1] = h} IN IF at = {} THEN -1 ELSE r[CHOOSE i \in at : TRUE][2]
PrefixOf(r, t) == Len(r) <= Len(t) /\ SubSeq(t, 1, Len(r)) = r

(* ----------------------------- slots ------------------------------------- *)
NoSrc == <<>>
None == [k |-> "none", r |-> <<>>, torn |-> FALSE, src |-> NoSrc, part |-> FALSE]
Slot(k, r, src) == [k |-> k, r |-> r, torn |-> FALSE, src |-> src, part |-> FALSE]
(* src = <<p, lim>>: the same records as a download of lim files while p was  *)
(* published (part: only the beginning of it)                                 *)
Usable(s) == s.k = "bin" /\ ~ s.torn
Source(s, whole) == IF whole /\ ~ s.part THEN s.src ELSE NoSrc

(* ------------------------------ actions ---------------------------------- *)
Starts == [1..NF -> Counts]          \* (a published file is never empty)
Init == /\ \E a \in Starts : pub = [f \in 1..NF |-> <<<<(f - 1) * K + 1, a[f]>>>>]
        /\ slot = [s \in Slots |-> None] /\ ops = <<>>

More == Len(ops) < MaxOps
Do(o) == More /\ ops' = Append(ops, o)
Put(t, v) == slot' = [slot EXCEPT ![t] = v] /\ UNCHANGED pub

Hash(f, k) == (f - 1) * K + k
Keys(f) == {pub[f][i][1] - (f - 1) * K : i \in DOMAIN pub[f]}
Insert(r, x) == Canon(Append(r, x))

Gain == \E f \in 1..NF, k \in 1..K, c \in Counts :        \* a new hash is published
          /\ k \notin Keys(f) /\ Do([op |-> "gain", f |-> f, k |-> k, c |-> c])
          /\ pub' = [pub EXCEPT ![f] = Insert(@, <<Hash(f, k), c>>)] /\ UNCHANGED slot
Recount == \E f \in 1..NF : \E i \in DOMAIN pub[f], c \in Counts :
          /\ pub[f][i][2] # c /\ Do([op |-> "recount", f |-> f, k |-> pub[f][i][1] - (f - 1) * K, c |-> c])
          /\ pub' = [pub EXCEPT ![f] = [@ EXCEPT ![i] = <<@[1], c>>]] /\ UNCHANGED slot
Lose == \E f \in 1..NF : \E i \in DOMAIN pub[f] : Len(pub[f]) > 1
          /\ Do([op |-> "lose", f |-> f, k |-> pub[f][i][1] - (f - 1) * K])
          /\ pub' = [pub EXCEPT ![f] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))] /\ UNCHANGED slot

Download(t, k, lim, force) ==
          /\ Do([op |-> "download", t |-> t, kind |-> k, lim |-> lim, force |-> force])
          /\ IF slot[t].k # "none" /\ ~ force THEN UNCHANGED <<pub, slot>>
             ELSE Put(t, Slot(k, Published(pub, lim), <<pub, lim>>))
Cut(t, n, torn) ==       \* a crash while it was downloaded
          /\ slot[t].k = "bin" /\ slot[t].src # NoSrc /\ slot[t].r = Published(slot[t].src[1], slot[t].src[2])
          /\ n < Len(slot[t].r)
          /\ Do([op |-> "cut", t |-> t, n |-> n, torn |-> torn])
          /\ Put(t, [slot[t] EXCEPT !.r = First(@, n), !.torn = torn, !.part = TRUE])
Resume(t, lim) ==
          /\ slot[t].k = "bin"
          /\ PrefixOf(slot[t].r, Published(pub, lim))
          /\ Do([op |-> "resume", t |-> t, lim |-> lim])
          /\ Put(t, Slot("bin", Published(pub, lim), <<pub, lim>>))
Convert(s, t, n) ==
          /\ s # t /\ slot[s].k # "none"
          /\ Do([op |-> "convert", s |-> s, t |-> t, n |-> n])
          /\ IF slot[s].torn THEN UNCHANGED <<pub, slot>>
             ELSE Put(t, Slot(IF slot[s].k = "bin" THEN "txt" ELSE "bin", First(slot[s].r, n),
                              Source(slot[s], n >= Len(slot[s].r))))
Sort(s, t, m) ==
          /\ Len(slot[s].r) > 0 /\ slot[s].k # "none" /\ (slot[s].k = "txt" => m = "hash")
          /\ Do([op |-> "sort", s |-> s, t |-> t, m |-> m])
          /\ IF slot[s].torn THEN UNCHANGED <<pub, slot>>
             ELSE Put(t, Slot(slot[s].k, IF m = "hash" THEN Canon(slot[s].r) ELSE ByCount(slot[s].r),
                              Source(slot[s], TRUE)))
TopN(s, t, n) ==
          /\ s # t /\ slot[s].k = "bin"
          /\ Do([op |-> "topn", s |-> s, t |-> t, n |-> n])
          /\ IF slot[s].torn \/ n >= Len(slot[s].r) THEN UNCHANGED <<pub, slot>>
             ELSE Put(t, Slot("bin", Top(slot[s].r, n), NoSrc))
Cat(s, u, t) ==
          /\ s # u /\ slot[s].k # "none" /\ slot[s].k = slot[u].k /\ ~ slot[s].torn /\ ~ slot[u].torn
          /\ Do([op |-> "cat", s |-> s, u |-> u, t |-> t])
          /\ Put(t, Slot(slot[s].k, slot[s].r \o slot[u].r, NoSrc))
(* questions change nothing *)
Diff(s, t) == s # t /\ slot[s].k = "bin" /\ slot[t].k = "bin"
          /\ Do([op |-> "diff", s |-> s, t |-> t]) /\ UNCHANGED <<pub, slot>>
Search(s, toc) == slot[s].k = "bin" /\ Len(slot[s].r) > 0
          /\ Do([op |-> "search", s |-> s, toc |-> toc]) /\ UNCHANGED <<pub, slot>>
Dupes(s) == slot[s].k = "bin"
          /\ Do([op |-> "dupes", s |-> s]) /\ UNCHANGED <<pub, slot>>

Next == \/ Gain \/ Recount \/ Lose
        \/ \E t \in Slots, k \in {"bin", "txt"}, lim \in 1..NF, force \in BOOLEAN : Download(t, k, lim, force)
        \/ \E t \in Slots, n \in 0..(NF * K - 1), torn \in BOOLEAN : Cut(t, n, torn)
        \/ \E t \in Slots, lim \in 1..NF : Resume(t, lim)
        \/ \E s, t \in Slots, n \in Limits : Convert(s, t, n)
        \/ \E s, t \in Slots, m \in {"hash", "count"} : Sort(s, t, m)
        \/ \E s, t \in Slots, n \in 1..3 : TopN(s, t, n)
        \/ \E s, u, t \in Slots : Cat(s, u, t)
        \/ \E s, t \in Slots : Diff(s, t)
        \/ \E s \in Slots, toc \in BOOLEAN : Search(s, toc)
        \/ \E s \in Slots : Dupes(s)
Spec == Init /\ [][Next]_vars
View == <<pub, slot, Len(ops)>>

(* ------------------------------- laws ------------------------------------ *)
Db(s) == s.k # "none" /\ ~ s.torn
(* whatever was done to it: converted and sorted, it is the download *)
Lineage == \A s \in Slots : LET x == slot[s] IN
  x.src # NoSrc => IF x.part THEN PrefixOf(x.r, Published(x.src[1], x.src[2]))
                   ELSE Canon(x.r) = Published(x.src[1], x.src[2])
(* two routes from the same published files meet *)
Confluence == \A s, t \in Slots :
  LET x == slot[s]  y == slot[t] IN
  x.src # NoSrc /\ x.src = y.src /\ ~ x.part /\ ~ y.part => Canon(x.r) = Canon(y.r)
SortLaws == \A s \in Slots : LET r == slot[s].r IN
  /\ Canon(ByCount(r)) = Canon(r) /\ ByCount(Canon(r)) = ByCount(r)
  /\ SortOf(r, "hash", Canon(r)) /\ SortOf(r, "count", ByCount(r))
  /\ \A o \in Slots : Canon(slot[o].r \o r) = Canon(r \o slot[o].r)
TopLaws == \A s \in Slots : LET r == slot[s].r IN
  \A n \in 0..Len(r) : \A m \in n..Len(r) :
    /\ Top(Top(r, m), n) = Top(r, n)
    /\ Top(ByCount(r), n) = Top(r, n)
    /\ \A o \in Slots : Top(Top(r, m) \o Top(slot[o].r, m), n) = Top(r \o slot[o].r, n)   \* of parts
LookupLaws == \A s \in Slots : LET r == slot[s].r IN StrictlySorted(r) =>
  \A h \in 1..(NF * K) : Lookup(r, h) = Lookup(ByCount(r), h)
    /\ \A n \in 0..Len(r) : Lookup(Top(r, n), h) \in {-1, Lookup(r, h)}

GenInit == /\ \E a \in [1..NF -> {r \in SeqsUpTo(Counts, K) : Len(r) > 0}] :
                pub = [f \in 1..NF |-> [k \in DOMAIN a[f] |-> <<Hash(f, k), a[f][k]>>]]
           /\ slot = [s \in Slots |-> None]
           /\ ops = <<[op |-> "pub", pub |-> pub]>>
(* for histories: fewer alternatives of each kind, so that all kinds are as likely *)
One(S) == {RandomElement(S)}
Dbs == {s \in Slots : slot[s].k = "bin" /\ StrictlySorted(slot[s].r)}
GenNext ==
  \/ RandomElement(1..12) = 1 /\ (Gain \/ Recount \/ Lose)
  \/ \E x \in 1..2 : \E t \in One(Slots), k \in One(1..3), lim \in One(1..NF), f \in One(BOOLEAN) :
        Download(t, IF k = 1 THEN "txt" ELSE "bin", lim, x = 1 \/ f)
  \/ \E t \in Slots : \E n \in One(0..Len(slot[t].r)), torn \in One(BOOLEAN) : Cut(t, n, torn)
  \/ \E t \in {x \in Slots : slot[x].part}, lim \in 1..NF : Resume(t, lim)
  \/ \E t \in Slots, lim \in One(1..NF) : Resume(t, lim)
  \/ \E s \in Slots, t \in One(Slots), n \in One(Limits) : Convert(s, t, n)
  \/ \E s \in Slots, t \in One(Slots), m \in One({"hash", "count"}) : Sort(s, t, m)
  \/ \E s \in Slots, t \in One(Slots), n \in One(1..3) : TopN(s, t, n)
  \/ \E s \in Slots, u \in One(Slots), t \in One(Slots) : Cat(s, u, t)
  \/ \E s, t \in Dbs : Diff(s, t)
  \/ \E s \in Dbs, toc \in BOOLEAN : Search(s, toc)
  \/ \E s \in Dbs : Dupes(s)
GenSpec == GenInit /\ [][GenNext]_vars
EmitHist == Len(ops) = MaxOps => Emit(ops)
=============================================================================
