-------------------------------- MODULE Ntlm --------------------------------
(* The NT hash (src/ntlm.cpp, src/md4.c): MD4 of the UTF-16LE encoding of a   *)
(* UTF-8 password. An executable definition after RFC 3629, RFC 2781 and      *)
(* RFC 1320; 32 bit words are pairs <<high, low>> of 16 bit halves.           *)
EXTENDS Base, Bitwise

(* ------------------------------- UTF-8 ----------------------------------- *)
(* the code points of a sequence of bytes; <<-1>> at the first invalid place *)
Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
RECURSIVE DecodeFrom(_, _)
DecodeFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] < 128 THEN <<s[i]>> \o DecodeFrom(s, i + 1)
  ELSE IF s[i] \in 194..223 /\ Cont(s, i + 1)
       THEN <<(s[i] - 192) * 64 + s[i + 1] - 128>> \o DecodeFrom(s, i + 2)
  ELSE IF s[i] \in 224..239 /\ Cont(s, i + 1) /\ Cont(s, i + 2)
       THEN LET c == (s[i] - 224) * 4096 + (s[i + 1] - 128) * 64 + s[i + 2] - 128 IN
            IF c < 2048 \/ c \in 55296..57343 THEN <<-1>> ELSE <<c>> \o DecodeFrom(s, i + 3)
  ELSE IF s[i] \in 240..244 /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
       THEN LET c == (s[i] - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64
                     + s[i + 3] - 128 IN
            IF c < 65536 \/ c > 1114111 THEN <<-1>> ELSE <<c>> \o DecodeFrom(s, i + 4)
  ELSE <<-1>>
Decode(s) == DecodeFrom(s, 1)
Valid(cps) == \A k \in DOMAIN cps : cps[k] # -1

(* an encoded surrogate, which is no valid UTF-8, but which many decoders (this *)
(* C++ library's among them) pass through                                      *)
HasSurrogate(s) == \E i \in 1..(Len(s) - 1) : s[i] = 237 /\ s[i + 1] \in 160..191

RECURSIVE Encode8(_)
Encode8(cps) ==
  IF cps = <<>> THEN <<>>
  ELSE LET c == Head(cps) IN
       (IF c < 128 THEN <<c>>
        ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
        ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
        ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>)
       \o Encode8(Tail(cps))

(* ----------------------------- UTF-16LE ----------------------------------- *)
LE16(u) == <<u % 256, u \div 256>>
Units(c) == IF c < 65536 THEN LE16(c)
            ELSE LE16(55296 + (c - 65536) \div 1024) \o LE16(56320 + ((c - 65536) % 1024))
RECURSIVE Utf16(_)
Utf16(cps) == IF cps = <<>> THEN <<>> ELSE Units(Head(cps)) \o Utf16(Tail(cps))

(* -------------------------------- MD4 ------------------------------------ *)
Add(x, y) == LET lo == x[2] + y[2] IN <<(x[1] + y[1] + (lo \div 65536)) % 65536, lo % 65536>>
Inv32(x) == <<65535 - x[1], 65535 - x[2]>>
And32(x, y) == <<x[1] & y[1], x[2] & y[2]>>
Or32(x, y) == <<x[1] | y[1], x[2] | y[2]>>
Xor32(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
RotL(x, n) ==   \* 0 < n < 16
  LET p == P2[n + 1]
      q == P2[17 - n] IN
  <<((x[1] % q) * p) + (x[2] \div q), ((x[2] % q) * p) + (x[1] \div q)>>

F(x, y, z) == Or32(And32(x, y), And32(Inv32(x), z))
G(x, y, z) == Or32(Or32(And32(x, y), And32(x, z)), And32(y, z))
H(x, y, z) == Xor32(Xor32(x, y), z)

K2 == <<23170, 31129>>    \* 5A827999
K3 == <<28377, 60321>>    \* 6ED9EBA1
Order3 == <<0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15>>
Shift(r, k) == (<< <<3, 7, 11, 19>>, <<3, 5, 9, 13>>, <<3, 9, 11, 15>> >>)[r][(k % 4) + 1]
Rot(x, n) == IF n < 16 THEN RotL(x, n) ELSE RotL(<<x[2], x[1]>>, n - 16)

(* step k (0..47) on the state <<a, b, c, d>>: the roles rotate *)
Step(st, X, k) ==
  LET r == k \div 16 + 1
      m == k % 16
      j == IF r = 1 THEN m ELSE IF r = 2 THEN (m % 4) * 4 + (m \div 4) ELSE Order3[m + 1]
      f == IF r = 1 THEN F(st[2], st[3], st[4]) ELSE IF r = 2 THEN G(st[2], st[3], st[4])
           ELSE H(st[2], st[3], st[4])
      c == IF r = 1 THEN <<0, 0>> ELSE IF r = 2 THEN K2 ELSE K3
      t == Rot(Add(Add(Add(st[1], f), X[j + 1]), c), Shift(r, k))
  IN <<st[4], t, st[2], st[3]>>
RECURSIVE Steps(_, _, _)
Steps(st, X, k) == IF k = 48 THEN st ELSE Steps(Step(st, X, k), X, k + 1)
BlockOf(st, data, off) ==
  LET X == [j \in 1..16 |-> <<data[off + 4 * j] * 256 + data[off + 4 * j - 1],
                              data[off + 4 * j - 2] * 256 + data[off + 4 * j - 3]>>]
      e == Steps(st, X, 0)
  IN [i \in 1..4 |-> Add(st[i], e[i])]
RECURSIVE Blocks(_, _, _)
Blocks(st, data, off) == IF off = Len(data) THEN st ELSE Blocks(BlockOf(st, data, off), data, off + 64)

Zeros(n) == [k \in 1..n |-> 0]
Pad(msg) == LET n == Len(msg)
                z == (119 - (n % 64)) % 64      \* zeros between the 0x80 and the length
            IN msg \o <<128>> \o Zeros(z)
                   \o <<(n * 8) % 256, ((n * 8) \div 256) % 256, ((n * 8) \div 65536) % 256, 0, 0, 0, 0, 0>>
Init4 == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>
Bytes4(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
Md4(msg) == LET s == Blocks(Init4, Pad(msg), 0)
            IN Bytes4(s[1]) \o Bytes4(s[2]) \o Bytes4(s[3]) \o Bytes4(s[4])

Hash(password) == Md4(Utf16(Decode(password)))
=============================================================================
