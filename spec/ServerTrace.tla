----------------------------- MODULE ServerTrace ----------------------------
(* Judges recorded conversations with hibp-server.                            *)
(* kind "cfg": a server was started: has (types of the databases given); mode *)
(*   "table": db[type] = records <<hash bytes, count>>; mode "ranked": size   *)
(*   = number of records of each type, the count of record k of a type is     *)
(*   k * 3 + an offset of the type, and requests carry ranks: for each type   *)
(*   2 * k if the hash asked for is the k-th record, odd otherwise            *)
(* kind "conn": one connection: reqs (method, path as bytes, ranks; for very   *)
(*   long plain passwords: plain, ranks), resps                                *)
(*   (status, count or -9 if there is none, len of the body, close), reset    *)
(*   (ended by a connection reset); faulty: reads of the database were made   *)
(*   to fail during that time; dropped: the HTTP library closed it without an *)
(*   answer, and the rest is asked again in another conversation, where it    *)
(*   must be answered                                                         *)
(* kind "left": a connection which the client gave up before the last answer   *)
EXTENDS Sha1
VARIABLES l, cfg
L == INSTANCE LookupTrace WITH db <- 0, bits <- 0, toc <- 0, entries <- 0, lastpos <- 0, needle <- 0,
                               lo <- 0, len <- 0, hi <- 0, ans <- 0, pc <- 0
C == INSTANCE Convert WITH MaxLines <- 0, Recs <- {}, MaxLimit <- 0, Buf <- 1,
       lines <- 0, limit <- 0, pos <- 0, buf <- 0, out <- 0, pc <- 0
Ev == TraceLog[l]

(* ------------------------------- routing ---------------------------------- *)
RECURSIVE SplitAt(_, _, _, _)
SplitAt(p, i, cur, acc) ==
  IF i > Len(p) THEN Append(acc, cur)
  ELSE IF p[i] = 47 THEN SplitAt(p, i + 1, <<>>, Append(acc, cur))
  ELSE SplitAt(p, i + 1, Append(cur, p[i]), acc)
Segments(p) == SplitAt(p, 1, <<>>, <<>>)
HexVal(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 65..70 THEN ch - 55
              ELSE IF ch \in 97..102 THEN ch - 87 ELSE -1
RECURSIVE Unescape(_, _)
Unescape(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = 37 /\ i + 2 <= Len(s) /\ HexVal(s[i + 1]) >= 0 /\ HexVal(s[i + 2]) >= 0
  THEN <<HexVal(s[i + 1]) * 16 + HexVal(s[i + 2])>> \o Unescape(s, i + 3)
  ELSE <<s[i]>> \o Unescape(s, i + 1)

CHECK == <<99, 104, 101, 99, 107>>
PLAIN == <<112, 108, 97, 105, 110>>
SHA1W == <<115, 104, 97, 49>>
NTLMW == <<110, 116, 108, 109>>
T64W == <<115, 104, 97, 49, 116, 54, 52>>
Types == {"sha1", "ntlm", "sha1t64"}
Size == [sha1 |-> 20, ntlm |-> 16, sha1t64 |-> 8]
Word == [sha1 |-> SHA1W, ntlm |-> NTLMW, sha1t64 |-> T64W]
Offset == [sha1 |-> 0, ntlm |-> 1, sha1t64 |-> 2]

(* the counts a lookup may answer with *)
Lookup(c, r, type, hash) ==
  IF c.mode = "table"
  THEN LET M == {k \in DOMAIN c.db[type] : c.db[type][k][1] = hash} IN
       IF M = {} THEN {-1} ELSE {c.db[type][k][2] : k \in M}
  ELSE LET q == r.ranks[type] IN
       IF q % 2 = 0 /\ q \in 2..(2 * c.size[type]) THEN {(q \div 2) * 3 + Offset[type]} ELSE {-1}

Answer(c, r, type, hash, resp) == resp.status = 200 /\ resp.count \in Lookup(c, r, type, hash)
BadRequest(resp) == resp.status = 400 /\ resp.len > 0
NotFound(resp) == resp.status = 404

PlainOK(c, r, type, pw, resp) ==
  IF type = "ntlm" /\ c.mode = "table" /\ PwHash("ntlm", pw) = <<>>
  THEN resp.status >= 400 \/ HasSurrogate(pw)
  ELSE Answer(c, r, type, IF c.mode = "table" THEN PwHash(type, pw) ELSE <<>>, resp)

PlainAny(c, r, resp) == \E type \in Range(c.has) :
                           /\ "sha1" \in Range(c.has) => type = "sha1"
                           /\ Answer(c, r, type, <<>>, resp)
RespOK(c, r, resp) ==
  IF "plain" \in DOMAIN r THEN PlainAny(c, r, resp) ELSE
  LET seg == Segments(r.path)
      has == Range(c.has) IN
  IF r.method # "GET" \/ Len(seg) # 4 \/ seg[1] # <<>> THEN NotFound(resp)
  ELSE IF seg[2] # CHECK \/ seg[3] = <<>> \/ seg[4] = <<>> THEN NotFound(resp)
  ELSE IF seg[3] = PLAIN
  THEN LET pw == Unescape(seg[4], 1) IN
       IF has = {} THEN BadRequest(resp)
       ELSE IF "sha1" \in has THEN PlainOK(c, r, "sha1", pw, resp)
       ELSE \E type \in has : PlainOK(c, r, type, pw, resp)
  ELSE IF \E type \in Types : seg[3] = Word[type]
  THEN LET type == CHOOSE type \in Types : seg[3] = Word[type] IN
       IF type \notin has \/ ~ L!ValidHash(seg[4], Size[type]) THEN BadRequest(resp)
       ELSE Answer(c, r, type, C!HashOf(seg[4], Size[type]), resp)
  ELSE NotFound(resp)

(* an error is the proper answer *)
ErrorDue(c, r) == LET X(st) == [status |-> st, len |-> 1, count |-> -9] IN
                  RespOK(c, r, X(400)) \/ RespOK(c, r, X(404))

ConnOK(c, e) ==
  /\ Len(e.resps) <= Len(e.reqs)
  /\ \A i \in DOMAIN e.resps : \/ RespOK(c, e.reqs[i], e.resps[i])
                               \/ e.faulty /\ e.resps[i].status >= 500
  /\ \/ Len(e.resps) = Len(e.reqs)
     \/ e.dropped
     \/ Len(e.resps) > 0 /\ e.resps[Len(e.resps)].close /\ e.resps[Len(e.resps)].status # 200
     \/ e.reset /\ (e.faulty \/ ErrorDue(c, e.reqs[Len(e.resps) + 1]))

LeftOK(c, e) == /\ Len(e.resps) <= Len(e.reqs)
                /\ \A i \in DOMAIN e.resps : RespOK(c, e.reqs[i], e.resps[i])

Init == l = 1 /\ ReachInit /\ cfg = 0
Next == /\ l <= Len(TraceLog)
        /\ IF Ev.kind = "cfg" THEN Ev.started = TRUE /\ cfg' = l
           ELSE IF Ev.kind = "left" THEN LeftOK(TraceLog[cfg], Ev) = TRUE /\ UNCHANGED cfg
           ELSE ConnOK(TraceLog[cfg], Ev) = TRUE /\ UNCHANGED cfg
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, cfg>>
Constr == Reach(l)
=============================================================================
