--------------------------- MODULE PipelineTrace ----------------------------
(* Follows recorded histories of work with the real tools. Every event holds  *)
(* the contents of all slots after it (as [k, r, torn], records of unknown    *)
(* hash have rank 0, text which is not HASH:COUNT lines is a record of rank   *)
(* 0 as well), rc, and whether other files were left behind (clean).          *)
EXTENDS Base
VARIABLES l, pub, slot, file, lead
P == INSTANCE Pipeline WITH NF <- 0, K <- 0, Slots <- {}, Counts <- {}, MaxOps <- 0, Limits <- {}, ops <- <<>>
D == INSTANCE Diff WITH Hashes <- {}, Counts <- {}, old <- 0, new <- 0, i <- 0, j <- 0, hunks <- 0, pc <- 0
Ev == TraceLog[l]
Init == l = 1 /\ ReachInit /\ pub = <<>> /\ slot = <<>> /\ file = <<>> /\ lead = <<>>

Is(s, x) == s.k = x.k /\ s.r = x.r /\ s.torn = x.torn     \* recorded contents are as those of a slot
Same(but) == \A s \in DOMAIN slot : s # but => Is(Ev.slots[s], slot[s])
Failed == Ev.rc # 0 /\ Same(0) /\ Ev.clean /\ UNCHANGED <<pub, slot>>
Got(t, k, src, part) ==         \* t has become what was recorded, nothing else has changed
  /\ Ev.rc = 0 /\ Same(t) /\ Ev.clean /\ Ev.slots[t].k = k /\ ~ Ev.slots[t].torn
  /\ slot' = [slot EXCEPT ![t] = [k |-> k, r |-> Ev.slots[t].r, torn |-> FALSE, src |-> src, part |-> part]]
  /\ UNCHANGED pub
Out == Ev.slots[Ev.t].r
Told == Same(0) /\ Ev.clean /\ UNCHANGED <<pub, slot>>     \* a question

Start == /\ Ev.op = "start" /\ file' = Ev.file /\ lead' = Ev.lead
         /\ slot' = [s \in 1..Ev.n |-> P!None] /\ pub' = <<>>
Pub == Ev.op = "pub" /\ pub' = Ev.pub /\ UNCHANGED slot

Download == /\ Ev.op = "download"
            /\ IF slot[Ev.t].k # "none" /\ ~ Ev.force THEN Failed
               ELSE /\ Out = P!Published(pub, Ev.lim)
                    /\ Got(Ev.t, Ev.kind, <<pub, Ev.lim>>, FALSE)
Cut ==      \* a crash: any whole-record prefix, and perhaps a torn record
  /\ Ev.op = "cut" /\ Same(Ev.t)
  /\ P!PrefixOf(Out, slot[Ev.t].r) /\ Ev.slots[Ev.t].k = "bin"
  /\ LET s == slot[Ev.t]
         still == s.src # <<>> /\ P!PrefixOf(s.r, P!Published(s.src[1], s.src[2])) IN
     slot' = [slot EXCEPT ![Ev.t] = [@ EXCEPT !.r = Out, !.torn = Ev.slots[Ev.t].torn, !.part = still,
                                              !.src = IF still THEN s.src ELSE P!NoSrc]]
  /\ UNCHANGED pub
Resume == /\ Ev.op = "resume" /\ P!PrefixOf(slot[Ev.t].r, P!Published(pub, Ev.lim))
          /\ LET all == P!Published(pub, Ev.lim) IN
             IF slot[Ev.t].r = all /\ Ev.rc # 0                 \* nothing is missing (a torn record is cut off)
             THEN /\ Same(Ev.t) /\ Ev.clean /\ Out = all /\ Ev.slots[Ev.t].k = "bin"
                  /\ Ev.slots[Ev.t].torn => slot[Ev.t].torn
                  /\ slot' = [slot EXCEPT ![Ev.t].torn = Ev.slots[Ev.t].torn]
                  /\ UNCHANGED pub
             ELSE Out = all /\ Got(Ev.t, "bin", <<pub, Ev.lim>>, FALSE)
Convert == /\ Ev.op = "convert"
           /\ LET s == slot[Ev.s] IN
              IF s.torn THEN Failed
              ELSE /\ Out = P!First(s.r, Ev.n)
                   /\ Got(Ev.t, IF s.k = "bin" THEN "txt" ELSE "bin", P!Source(s, Ev.n >= Len(s.r)), FALSE)
Sort == /\ Ev.op = "sort"
        /\ LET s == slot[Ev.s] IN
           IF s.torn THEN Failed
           ELSE /\ P!SortOf(s.r, Ev.m, Out) /\ Got(Ev.t, s.k, P!Source(s, TRUE), FALSE)
TopN == /\ Ev.op = "topn"
        /\ LET s == slot[Ev.s] IN
           IF s.torn \/ Ev.n >= Len(s.r) THEN Failed
           ELSE P!TopOf(s.r, Ev.n, Out) /\ Got(Ev.t, "bin", P!NoSrc, FALSE)
Cat == /\ Ev.op = "cat" /\ Out = slot[Ev.s].r \o slot[Ev.u].r /\ Got(Ev.t, slot[Ev.s].k, P!NoSrc, FALSE)

Diff == /\ Ev.op = "diff" /\ Told
        /\ LET o == slot[Ev.s]  n == slot[Ev.t] IN
           IF o.torn \/ n.torn THEN Ev.rc # 0
           ELSE StrictlySorted(o.r) /\ StrictlySorted(n.r) /\ D!Contract(o.r, n.r, Ev.rc = 0, Ev.hunks)
Pow2(n) == <<1, 2, 4, 8, 16, 32>>[n + 1]
Prefix(h) == file[h] \div Pow2(20 - Ev.bits)
NoGap(r) == {Prefix(r[i][1]) : i \in DOMAIN r} = 0..Prefix(r[Len(r)][1])
Search == /\ Ev.op = "search" /\ Told
          /\ LET r == slot[Ev.s].r IN
             IF slot[Ev.s].torn \/ (Ev.toc /\ ~ NoGap(r)) THEN Ev.rc # 0
             ELSE StrictlySorted(r) /\ Ev.rc = 0 /\ \A a \in Range(Ev.ans) : a[2] = P!Lookup(r, a[1])
Dupes == /\ Ev.op = "dupes" /\ Told
         /\ LET r == slot[Ev.s].r IN
            IF slot[Ev.s].torn THEN Ev.rc # 0
            ELSE /\ Ev.rc = 0
                 /\ Range(Ev.printed) = {i \in 2..Len(r) : lead[r[i][1]] = lead[r[i - 1][1]]}
                 /\ \A i \in 1..(Len(Ev.printed) - 1) : Ev.printed[i] < Ev.printed[i + 1]

Next == /\ l <= Len(TraceLog) /\ l' = l + 1
        /\ \/ Start
           \/ /\ UNCHANGED <<file, lead>>
              /\ \/ Pub \/ Download \/ Cut \/ Resume \/ Convert \/ Sort \/ TopN \/ Cat
                 \/ Diff \/ Search \/ Dupes
Spec == Init /\ [][Next]_<<l, pub, slot, file, lead>>

(* the laws, on real contents *)
Lineage == \A s \in DOMAIN slot : LET x == slot[s] IN
  x.src # <<>> => IF x.part THEN P!PrefixOf(x.r, P!Published(x.src[1], x.src[2]))
                  ELSE P!Canon(x.r) = P!Published(x.src[1], x.src[2])
Confluence == \A s, t \in DOMAIN slot :
  LET x == slot[s]  y == slot[t] IN
  s # t /\ x.src # <<>> /\ x.src = y.src /\ ~ x.part /\ ~ y.part /\ P!HSorted(x.r) /\ P!HSorted(y.r) => x.r = y.r
Constr == Reach(l)
=============================================================================
