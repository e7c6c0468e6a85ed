-------------------------------- MODULE Sha1 --------------------------------
(* The SHA-1 digest (RFC 3174) of a sequence of bytes, as an executable       *)
(* definition: the hash by which passwords are looked up in sha1 and (its     *)
(* first 8 bytes) sha1t64 databases. Words are pairs of halves as in Ntlm.    *)
EXTENDS Ntlm

RECURSIVE Expand(_)
Expand(W) == IF Len(W) = 80 THEN W
             ELSE LET t == Len(W) + 1 IN
                  Expand(Append(W, Rot(Xor32(Xor32(W[t - 3], W[t - 8]), Xor32(W[t - 14], W[t - 16])), 1)))
Sha1K(t) == IF t < 20 THEN K2 ELSE IF t < 40 THEN K3
            ELSE IF t < 60 THEN <<36635, 48348>>        \* 8F1BBCDC
            ELSE <<51810, 49622>>                        \* CA62C1D6
Sha1F(t, b, c, d) == IF t < 20 THEN F(b, c, d) ELSE IF t \in 40..59 THEN G(b, c, d) ELSE H(b, c, d)
RECURSIVE Sha1Steps(_, _, _)
Sha1Steps(st, W, t) ==
  IF t = 80 THEN st
  ELSE LET x == Add(Add(Add(Rot(st[1], 5), Sha1F(t, st[2], st[3], st[4])), Add(st[5], W[t + 1])), Sha1K(t))
       IN Sha1Steps(<<x, st[1], Rot(st[2], 30), st[3], st[4]>>, W, t + 1)
RECURSIVE Sha1Blocks(_, _, _)
Sha1Blocks(st, data, off) ==
  IF off = Len(data) THEN st
  ELSE LET W == Expand([j \in 1..16 |-> <<data[off + 4 * j - 3] * 256 + data[off + 4 * j - 2],
                                          data[off + 4 * j - 1] * 256 + data[off + 4 * j]>>])
           e == Sha1Steps(st, W, 0)
       IN Sha1Blocks(<<Add(st[1], e[1]), Add(st[2], e[2]), Add(st[3], e[3]), Add(st[4], e[4]), Add(st[5], e[5])>>,
                     data, off + 64)
Sha1Pad(msg) == LET n == Len(msg) IN
                msg \o <<128>> \o Zeros((119 - (n % 64)) % 64)
                    \o <<0, 0, 0, 0, 0, ((n * 8) \div 65536) % 256, ((n * 8) \div 256) % 256, (n * 8) % 256>>
Sha1Init == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>> >>
BytesBE(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
Sha1(msg) == LET s == Sha1Blocks(Sha1Init, Sha1Pad(msg), 0) IN
             BytesBE(s[1]) \o BytesBE(s[2]) \o BytesBE(s[3]) \o BytesBE(s[4]) \o BytesBE(s[5])

(* the hash of a password (a sequence of bytes) in each type of database;     *)
(* <<>> if it has none                                                        *)
PwHash(type, pw) ==
  IF type = "sha1" THEN Sha1(pw)
  ELSE IF type = "sha1t64" THEN SubSeq(Sha1(pw), 1, 8)
  ELSE LET cps == Decode(pw) IN IF Valid(cps) THEN Md4(Utf16(cps)) ELSE <<>>
=============================================================================
