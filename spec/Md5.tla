-------------------------------- MODULE Md5 --------------------------------
(* RFC 1321.  A 32-bit word is a pair of its halves <<high, low>>.            *)
EXTENDS Str, Bitwise
KT == <<<<55146,42104>>, <<59591,46934>>, <<9248,28891>>, <<49597,52974>>, <<62844,4015>>, <<18311,50730>>, <<43056,17939>>, <<64838,38145>>,
       <<27008,39128>>, <<35652,63407>>, <<65535,23473>>, <<35164,55230>>, <<27536,4386>>, <<64920,29075>>, <<42617,17294>>, <<18868,2081>>,
       <<63006,9570>>, <<49216,45888>>, <<9822,23121>>, <<59830,51114>>, <<54831,4189>>, <<580,5203>>, <<55457,59009>>, <<59347,64456>>,
       <<8673,52710>>, <<49975,2006>>, <<62677,3463>>, <<17754,5357>>, <<43491,59653>>, <<64751,41976>>, <<26479,729>>, <<36138,19594>>,
       <<65530,14658>>, <<34673,63105>>, <<28061,24866>>, <<64997,14348>>, <<42174,59972>>, <<19422,53161>>, <<63163,19296>>, <<48831,48240>>,
       <<10395,32454>>, <<60065,10234>>, <<54511,12421>>, <<1160,7429>>, <<55764,53305>>, <<59099,39397>>, <<8098,31992>>, <<50348,22117>>,
       <<62505,8772>>, <<17194,65431>>, <<43924,9127>>, <<64659,41017>>, <<25947,22979>>, <<36620,52370>>, <<65519,62589>>, <<34180,24017>>,
       <<28584,32335>>, <<65068,59104>>, <<41729,17172>>, <<19976,4513>>, <<63315,32386>>, <<48442,62005>>, <<10967,53947>>, <<60294,54161>>>>
KX == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 1, 6, 11, 0, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12, 5, 8, 11, 14, 1, 4, 7, 10, 13, 0, 3, 6, 9, 12, 15, 2, 0, 7, 14, 5, 12, 3, 10, 1, 8, 15, 6, 13, 4, 11, 2, 9>>
KS == <<7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21>>
WAdd(x, y) == LET l == x[2] + y[2] IN <<(x[1] + y[1] + (l \div 65536)) % 65536, l % 65536>>
Inv16(h) == 65535 - h
Pow2(n) == 2 ^ n
RotHalf(x, s) == LET m == Pow2(s) k == Pow2(16 - s)
                     sh(p, q) == ((p % k) * m) + (q \div k) IN <<sh(x[1], x[2]), sh(x[2], x[1])>>
Rot(x, s) == IF s = 0 THEN x ELSE IF s >= 16 THEN (IF s = 16 THEN <<x[2], x[1]>> ELSE RotHalf(<<x[2], x[1]>>, s - 16)) ELSE RotHalf(x, s)
Half(r, x, y, z) == CASE r = 0 -> (x & y) | (Inv16(x) & z)
                      [] r = 1 -> (x & z) | (y & Inv16(z))
                      [] r = 2 -> (x ^^ y) ^^ z
                      [] r = 3 -> y ^^ (x | Inv16(z))
Mix(i, x, y, z) == LET r == (i - 1) \div 16 IN <<Half(r, x[1], y[1], z[1]), Half(r, x[2], y[2], z[2])>>
\* one operation: the four words rotate their roles
Op(x, q, i) == LET f == WAdd(WAdd(q[1], Mix(i, q[2], q[3], q[4])), WAdd(x[KX[i] + 1], KT[i]))
               IN <<q[4], WAdd(q[2], Rot(f, KS[i])), q[2], q[3]>>
Steps == [i \in 1 .. 64 |-> i]
Block(q, x) == LET n == FoldLeft(LAMBDA s, i : Op(x, s, i), q, Steps) IN [j \in 1 .. 4 |-> WAdd(q[j], n[j])]
\* padding: one bit, zeros, the number of bits in 64 bits, least significant byte first
Padded(m) == LET n == Len(m) z == (119 - (n % 64)) % 64 bits == n * 8 IN
             m \o <<128>> \o [i \in 1 .. z |-> 0] \o <<bits % 256, (bits \div 256) % 256, (bits \div 65536) % 256, bits \div 16777216, 0, 0, 0, 0>>
Word(p, o) == <<p[o + 3] + 256 * p[o + 4], p[o + 1] + 256 * p[o + 2]>>
Start == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>
Sum(m) == LET p == Padded(m) IN
          FoldLeft(LAMBDA q, b : Block(q, [k \in 1 .. 16 |-> Word(p, 64 * (b - 1) + 4 * (k - 1))]), Start, [b \in 1 .. Len(p) \div 64 |-> b])
Bytes(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(bs) == FoldLeft(LAMBDA acc, b : acc \o <<HexDigit(b \div 16), HexDigit(b % 16)>>, <<>>, bs)
Text(q) == Hex(Bytes(q[1]) \o Bytes(q[2]) \o Bytes(q[3]) \o Bytes(q[4]))
Flat(q) == <<q[1][1], q[1][2], q[2][1], q[2][2], q[3][1], q[3][2], q[4][1], q[4][2]>>
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
\* known answers: n zero bytes, more than 2^32 bits (computed with an independent implementation)
\* (n as its part above and below 65536)
Known(n) == CASE n = <<8192, 3>> -> <<102, 52, 55, 55, 100, 100, 50, 51, 48, 48, 102, 102, 98, 55, 52, 49, 98, 57, 57, 48, 99, 52, 101, 97, 99, 50, 48, 56, 100, 57, 49, 53>>
              [] n = <<8192, 0>> -> <<97, 97, 53, 53, 57, 98, 52, 101, 51, 53, 50, 51, 97, 54, 99, 57, 51, 49, 102, 48, 56, 102, 52, 100, 102, 53, 50, 100, 53, 56, 102, 50>>
              [] n = <<65536, 5>> -> <<57, 54, 56, 97, 56, 56, 48, 57, 97, 97, 48, 56, 56, 54, 100, 56, 55, 102, 51, 56, 53, 100, 56, 56, 55, 51, 51, 97, 57, 56, 100, 50>>
Md5S0(h) == 0
Md5Step(s, e) ==
  LET ok == e.x = 0 /\
    CASE e.op = "sum" -> LET q == Sum(e.a[2]) IN e.r = <<Flat(q), Text(q)>>
      [] e.op = "zeros" -> e.r[2] = Known(<<e.a[1], e.a[2]>>)
      [] e.op = "less" -> e.r = <<Bit(LexLess(e.a[1], e.a[2]))>>
      [] e.op = "print" -> LET a == e.a[1] q == << <<a[1], a[2]>>, <<a[3], a[4]>>, <<a[5], a[6]>>, <<a[7], a[8]>> >> IN e.r = <<Text(q), 1>>
  IN IF ok THEN {s} ELSE {}
=============================================================================
