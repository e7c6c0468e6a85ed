------------------------------ MODULE Convert -------------------------------
(* hibp-convert (app/hibp_convert.cpp): text to binary reads line by line,    *)
(* parses each and buffers the records (Buf of them) before writing; binary   *)
(* to text reads blocks and prints. The concrete grammar of a line is defined *)
(* here, too (Parse/Print, over character codes) and used by ConvertTrace on  *)
(* what the real program read and wrote. The design model abstracts a line to *)
(* its record (a number) or BAD (malformed).                                  *)
EXTENDS Base
CONSTANTS MaxLines, Recs, MaxLimit, Buf

VARIABLES lines, limit, pos, buf, out, pc
vars == <<lines, limit, pos, buf, out, pc>>
BAD == 0

Init == /\ lines \in SeqsUpTo(Recs \cup {BAD}, MaxLines)
        /\ limit \in 0..MaxLimit
        /\ pos = 0 /\ buf = <<>> /\ out = <<>> /\ pc = "run"

More == pos < Len(lines) /\ pos < limit
Flush == /\ pc = "run" /\ More /\ Len(buf) = Buf
         /\ out' = out \o buf /\ buf' = <<>> /\ UNCHANGED <<lines, limit, pos, pc>>
Take == /\ pc = "run" /\ More /\ Len(buf) < Buf /\ lines[pos + 1] # BAD
        /\ buf' = Append(buf, lines[pos + 1]) /\ pos' = pos + 1
        /\ UNCHANGED <<lines, limit, out, pc>>
Malformed ==   \* fails; what is buffered may still be written
        /\ pc = "run" /\ More /\ lines[pos + 1] = BAD
        /\ out' \in {out, out \o buf} /\ buf' = <<>> /\ pc' = "failed"
        /\ UNCHANGED <<lines, limit, pos>>
Finish == /\ pc = "run" /\ ~ More
          /\ out' = out \o buf /\ buf' = <<>> /\ pc' = "ok"
          /\ UNCHANGED <<lines, limit, pos>>
Next == Flush \/ Take \/ Malformed \/ Finish
Spec == Init /\ [][Next]_vars

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
First(s, n) == SubSeq(s, 1, Min(n, Len(s)))
FirstBad(s) == IF \E k \in DOMAIN s : s[k] = BAD
               THEN CHOOSE k \in DOMAIN s : s[k] = BAD /\ \A m \in 1..(k - 1) : s[m] # BAD
               ELSE Len(s) + 1
(* P12 *)
Complete == pc = "ok" => out = First(lines, limit)
(* P22 *)
OnlyText == IsPrefix(out, First(lines, Min(limit, FirstBad(lines) - 1)))
BadFails == /\ (pc = "ok" => BAD \notin Range(First(lines, limit)))
            /\ (pc = "failed" => BAD \in Range(First(lines, limit)))

GenInit == Init /\ Emit([lines |-> lines, limit |-> limit])
GenSpec == GenInit /\ [][FALSE]_vars

(* ------------------------------ the grammar ------------------------------- *)
Digit(ch) == ch \in 48..57
HexVal(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 65..70 THEN ch - 55
              ELSE IF ch \in 97..102 THEN ch - 87 ELSE -1
HexChar(v) == IF v < 10 THEN 48 + v ELSE 55 + v

WellFormed(s, hlen) == Len(s) >= 2 * hlen /\ \A k \in 1..(2 * hlen) : HexVal(s[k]) # -1
HashOf(s, hlen) == [k \in 1..hlen |-> 16 * HexVal(s[2 * k - 1]) + HexVal(s[2 * k])]

RECURSIVE Number(_, _, _, _)
Number(s, k, acc, neg) ==
  IF k > Len(s) \/ ~ Digit(s[k]) THEN acc
  ELSE Number(s, k + 1, IF neg THEN acc * 10 - (s[k] - 48) ELSE acc * 10 + (s[k] - 48), neg)
RECURSIVE DigitsFrom(_, _)
DigitsFrom(s, k) == IF k > Len(s) \/ ~ Digit(s[k]) THEN <<>> ELSE <<s[k]>> \o DigitsFrom(s, k + 1)
RECURSIVE NoZeros(_)
NoZeros(d) == IF d # <<>> /\ d[1] = 48 THEN NoZeros(Tail(d)) ELSE d
MaxDigits == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>       \* 2147483647
TooBig(d, neg) ==
  LET m == [MaxDigits EXCEPT ![10] = IF neg THEN 56 ELSE 55] IN
  \/ Len(d) > 10
  \/ Len(d) = 10 /\ \E k \in 1..10 : d[k] > m[k] /\ \A j \in 1..(k - 1) : d[j] = m[j]
UNKNOWN == -1
CountOf(s, hlen) ==   \* of a line HASH:COUNT; a missing or impossible count is UNKNOWN
  LET k == 2 * hlen + 2
      neg == k <= Len(s) /\ s[k] = 45
      first == IF neg THEN k + 1 ELSE k
      d == DigitsFrom(s, first) IN
  IF d = <<>> \/ TooBig(NoZeros(d), neg) THEN UNKNOWN ELSE Number(s, first, 0, neg)

Parse(s, hlen) == <<HashOf(s, hlen), CountOf(s, hlen)>>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
MinInt == -2147483647 - 1
Decimal(n) == IF n >= 0 THEN Digits(n)
              ELSE IF n = MinInt THEN <<45>> \o Digits(214748364) \o <<56>>
              ELSE <<45>> \o Digits(0 - n)
Hex(h) == [k \in 1..(2 * Len(h)) |->
             LET b == h[(k + 1) \div 2] IN HexChar(IF k % 2 = 1 THEN b \div 16 ELSE b % 16)]
Line(r) == Hex(r[1]) \o <<58>> \o Decimal(r[2]) \o <<10>>
RECURSIVE PrintAll(_)
PrintAll(rs) == IF rs = <<>> THEN <<>> ELSE Line(Head(rs)) \o PrintAll(Tail(rs))
=============================================================================
