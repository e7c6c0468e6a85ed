----------------------------- MODULE LookupTrace ----------------------------
(* Judges recorded lookups.                                                   *)
(* kind "one" (hibp-search on a small database): db (records <<hash bytes,    *)
(*   count>>), mode "hash" (text: the query as character codes) or "plain"    *)
(*   (pw: the bytes of the password), type, size (bytes of a hash), toc;         *)
(*   status "found" (with rec), "notfound" or "refused"                       *)
(* kind "many": n records, qs = <<rank of the query, answer>>: rank 2*k is    *)
(*   the k-th record, odd ranks are hashes between them; answer: number of    *)
(*   the record, -1 not found, 0 a record which is not in the database        *)
(*   With a table of contents: bits, pfx (leading bits of each record) and    *)
(*   built (whether it could be built)                                        *)
(* kind "bits": a query of which it is known whether it is in the database,   *)
(*   with some number of bits                                                 *)
EXTENDS Sha1
VARIABLES l, db, bits, toc, entries, lastpos, needle, lo, len, hi, ans, pc
L == INSTANCE Lookup WITH Width <- 1, MaxLen <- 0, AllBits <- {}
C == INSTANCE Convert WITH MaxLines <- 0, Recs <- {}, MaxLimit <- 0, Buf <- 1,
       lines <- 0, limit <- 0, pos <- 0, buf <- 0, out <- 0
Ev == TraceLog[l]
others == <<db, bits, toc, entries, lastpos, needle, lo, len, hi, ans, pc>>

UpperHex(ch) == ch \in 48..57 \/ ch \in 65..70
ValidHash(t, size) == Len(t) = 2 * size /\ \A k \in DOMAIN t : UpperHex(t[k])

OneOK(e) ==
  IF e.mode = "hash" /\ ~ ValidHash(e.text, e.size)
  THEN e.status = "refused"
  ELSE LET x == IF e.mode = "hash" THEN C!HashOf(e.text, e.size) ELSE PwHash(e.type, e.pw)
           M == {k \in DOMAIN e.db : e.db[k][1] = x} IN
       IF x = <<>> THEN e.status = "refused"
       ELSE IF M = {} THEN e.status = "notfound"
       ELSE e.status = "found" /\ \E k \in M : e.rec = e.db[k]

Expect(n, q) == IF q % 2 = 0 /\ q > 0 /\ q <= 2 * n THEN q \div 2 ELSE -1
Gap(e) == Len(e.pfx) > 0 /\ ~ (0..e.pfx[Len(e.pfx)] \subseteq Range(e.pfx))
ManyOK(e) ==
  /\ e.rc = 0
  /\ IF "pfx" \in DOMAIN e /\ ~ e.built THEN Gap(e) \/ e.n = 0
     ELSE \A k \in DOMAIN e.qs : e.qs[k][2] = Expect(e.n, e.qs[k][1])

(* a table of contents is for 15 to 25 bits *)
BitsOK(e) == IF e.bits \in 15..25 THEN e.status = IF e.in THEN "found" ELSE "notfound" ELSE e.status = "refused"

OK(e) == CASE e.kind = "one" -> OneOK(e) [] e.kind = "bits" -> BitsOK(e) [] OTHER -> ManyOK(e)
Init == /\ l = 1 /\ ReachInit
        /\ db = 0 /\ bits = 0 /\ toc = 0 /\ entries = 0 /\ lastpos = 0 /\ needle = 0
        /\ lo = 0 /\ len = 0 /\ hi = 0 /\ ans = 0 /\ pc = 0
Next == l <= Len(TraceLog) /\ OK(Ev) = TRUE /\ l' = l + 1 /\ UNCHANGED others
Spec == Init /\ [][Next]_<<l, others>>
Constr == Reach(l)
=============================================================================
