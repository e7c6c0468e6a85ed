------------------------------- MODULE Md4Buf -------------------------------
(* The buffering of MD4_Update and the padding of MD4_Final (src/md4.c): the  *)
(* message arrives in pieces, full blocks of BlockLen bytes are processed at  *)
(* once, the rest is kept. All blocks processed together must be the padded   *)
(* message, however it was cut. Bytes are represented by their position,      *)
(* PAD = -1, zeros = -2, the length field by its value at LenBytes places.    *)
EXTENDS Base
CONSTANTS BlockLen, LenBytes, MaxMsg, MaxPieces
VARIABLES total,   \* length of the message
          fed,     \* bytes given so far
          buf,     \* not yet processed bytes
          done,    \* processed blocks, concatenated
          pieces, pc
vars == <<total, fed, buf, done, pieces, pc>>

Init == total \in 0..MaxMsg /\ fed = 0 /\ buf = <<>> /\ done = <<>> /\ pieces = <<>> /\ pc = "feed"

Update(n) ==
  LET new == [k \in 1..n |-> fed + k]
      all == buf \o new
      full == (Len(all) \div BlockLen) * BlockLen
  IN /\ done' = done \o SubSeq(all, 1, full)
     /\ buf' = SubSeq(all, full + 1, Len(all))
     /\ fed' = fed + n
Feed == /\ pc = "feed" /\ Len(pieces) < MaxPieces
        /\ \E n \in 0..(total - fed) : Update(n) /\ pieces' = Append(pieces, n)
        /\ UNCHANGED <<total, pc>>

(* two shapes of the last block(s): is there still room for the length? *)
Final == /\ pc = "feed" /\ fed = total
         /\ LET b1 == Append(buf, -1)
                free == BlockLen - Len(b1)
                pad == IF free < LenBytes THEN [k \in 1..(free + BlockLen - LenBytes) |-> -2]
                       ELSE [k \in 1..(free - LenBytes) |-> -2]
            IN done' = done \o b1 \o pad \o [k \in 1..LenBytes |-> total * 100]
         /\ buf' = <<>> /\ pc' = "done" /\ UNCHANGED <<total, fed, pieces>>
Next == Feed \/ Final
Spec == Init /\ [][Next]_vars

Buffered == Len(buf) < BlockLen /\ Len(done) % BlockLen = 0
Correct == pc = "done" =>
  LET z == (BlockLen * 2 - LenBytes - 1 - (total % BlockLen)) % BlockLen IN
  done = [k \in 1..total |-> k] \o <<-1>> \o [k \in 1..z |-> -2] \o [k \in 1..LenBytes |-> total * 100]

GenConstraint == pc = "feed" \/ Emit(pieces)
=============================================================================
