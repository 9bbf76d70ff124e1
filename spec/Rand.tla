-------------------------------- MODULE Rand --------------------------------
(* Random numbers: the Mersenne Twister MT19937 and what is drawn from a      *)
(* generator of 32-bit words.  A word is a pair of its halves <<high, low>>.  *)
EXTENDS Str, Bitwise
WXor(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
WAnd(x, y) == <<x[1] & y[1], x[2] & y[2]>>
Shr(x, s) == IF s >= 16 THEN <<0, x[1] \div (2 ^ (s - 16))>>
             ELSE <<x[1] \div (2 ^ s), (x[1] % (2 ^ s)) * (2 ^ (16 - s)) + (x[2] \div (2 ^ s))>>
Shl(x, s) == <<((x[1] % (2 ^ (16 - s))) * (2 ^ s)) + (x[2] \div (2 ^ (16 - s))), (x[2] % (2 ^ (16 - s))) * (2 ^ s)>>   \* 0 < s < 16
Mul16(a, b) == LET p == a * (b % 256) q == a * (b \div 256) l == (p % 65536) + (q % 256) * 256 IN
               <<(p \div 65536) + (q \div 256) + (l \div 65536), l % 65536>>
WMul(x, y) == LET l == Mul16(x[2], y[2]) IN <<(l[1] + Mul16(x[1], y[2])[2] + Mul16(x[2], y[1])[2]) % 65536, l[2]>>
WInc(x, n) == LET l == x[2] + n IN <<(x[1] + (l \div 65536)) % 65536, l % 65536>>
\* MT19937
NN == 624
MM == 397
Mult == <<27655, 35173>>       \* 1812433253
MtInit(seed) == FoldLeft(LAMBDA m, i : Append(m, WInc(WMul(Mult, WXor(m[i], Shr(m[i], 30))), i)), <<seed>>, [i \in 1 .. NN - 1 |-> i])
Twist(u, v, w) == LET y == <<(u[1] & 32768) | (v[1] & 32767), v[2]>> z == WXor(w, Shr(y, 1)) IN IF y[2] % 2 = 1 THEN WXor(z, <<39176, 45279>>) ELSE z
\* the words of the recurrence x(k+624) = twist(x(k), x(k+1), x(k+397)), continued to n more
MtMore(x, n) == FoldLeft(LAMBDA m, k : Append(m, Twist(m[k], m[k + 1], m[k + MM])), x, [k \in 1 .. n |-> k])
Temper(x) == LET a == WXor(x, Shr(x, 11)) b == WXor(a, WAnd(Shl(a, 7), <<40236, 22144>>))
                 c == WXor(b, WAnd(Shl(b, 15), <<61382, 0>>)) IN WXor(c, Shr(c, 18))
MtOut(seed, n) == LET x == MtMore(MtInit(seed), n) IN [i \in 1 .. n |-> Temper(x[NN + i])]
\* a real number in [0, 1) of 53 bits, from two words: its 27 high and 26 low bits
RealOf(u, v) == <<(u[1] * 2048) + (u[2] \div 32), (v[1] * 1024) + (v[2] \div 64)>>
\* values of sqrt(-2 ln a) and of sin, cos of eighths of a turn, times 10^4
Radius(i) == CASE i = 0 -> 0 [] i = 1 -> 11774 [] i = 2 -> 16651 [] i = 3 -> 85717
Sin8(j) == CASE j % 8 \in {0, 4} -> 0 [] j % 8 \in {1, 3} -> 7071 [] j % 8 = 2 -> 10000 [] j % 8 \in {5, 7} -> -7071 [] j % 8 = 6 -> -10000
Near(x, y) == x - y <= 6 /\ y - x <= 6
DivR(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
ULess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
ULeq(x, y) == x = y \/ ULess(x, y)
RECURSIVE Falling(_, _)
Falling(n, k) == IF k = 0 THEN 1 ELSE n * Falling(n - 1, k - 1)
RECURSIVE Power(_, _)
Power(n, k) == IF k = 0 THEN 1 ELSE n * Power(n, k - 1)
RandS0(h) == 0
RandStep(s, e) ==
  LET a == e.a r == e.r
      ok == e.x = 0 /\
   CASE e.op = "mt" -> LET o == MtOut(<<a[1], a[2]>>, a[3]) IN r[1] = [i \in 1 .. a[3] |-> o[i][1]] /\ r[2] = [i \in 1 .. a[3] |-> o[i][2]] /\ r[3] = 1
     \* how a draw follows from the words given: number of words used, and the number
     [] e.op = "real" -> r = <<2>> \o RealOf(<<a[1], a[2]>>, <<a[3], a[4]>>)
     [] e.op = "word" -> r = <<1, a[1], a[2]>>
     \* [0, n): exactly the part of n when n is a power of two, in range always
     [] e.op = "below" -> LET n == <<a[5], a[6]>> x == <<r[2], r[3]>> IN
           /\ r[1] = 2 /\ ULess(x, n)
           /\ \A k \in 0 .. 31 : n = (IF k < 16 THEN <<0, 2 ^ k>> ELSE <<2 ^ (k - 16), 0>>) => x = (IF k = 0 THEN <<0, 0>> ELSE Shr(<<a[1], a[2]>>, 32 - k)) \/ k > 27
     [] e.op = "between" -> LET lo == <<a[5], a[6]>> hi == <<a[7], a[8]>> x == <<r[2], r[3]>> IN r[1] = 2 /\ ULeq(lo, x) /\ ULess(x, hi)
     [] e.op = "realin" -> r = <<2, 1>>
     \* two normal deviates from four words, the second without any; then with mean and deviation
     [] e.op = "gauss" -> LET g1 == DivR(Radius(a[1]) * Sin8(a[2]), 10000) g2 == DivR(Radius(a[1]) * Sin8(a[2] + 2), 10000) IN
           /\ r[1] = 4 /\ r[3] = 0 /\ Near(r[2], g1) /\ Near(r[4], g2)
           /\ r[5] = 4 /\ Near(r[6], 50000 + DivR(g1, 2)) /\ r[7] = 0 /\ Near(r[8], 50000 - DivR(g2, 2))
     \* every choice the generator can make, once: all samples, each in range, none missing or twice
     [] e.op = "with" -> IF a[1] <= 0 \/ a[2] < 0 THEN r[1] = 0 ELSE
           /\ r[1] = 1 /\ \A x \in ToSet(r[2]) : Len(x) = a[2] /\ \A i \in 1 .. a[2] : x[i] \in 0 .. a[1] - 1
           /\ Len(r[2]) = Power(a[1], a[2]) /\ Cardinality(ToSet(r[2])) = Len(r[2])
     [] e.op = "without" -> IF a[1] <= 0 \/ a[2] < 0 \/ a[2] > a[1] THEN r[1] = 0 ELSE
           /\ r[1] = 1 /\ \A x \in ToSet(r[2]) : Len(x) = a[2] /\ Cardinality(ToSet(x)) = a[2] /\ ToSet(x) \subseteq 0 .. a[1] - 1
           /\ Len(r[2]) = Falling(a[1], a[2]) /\ Cardinality(ToSet(r[2])) = Len(r[2])
     \* one large sample
     [] e.op = "big" -> /\ r[1] = 1 /\ Len(r[2]) = a[3] /\ ToSet(r[2]) \subseteq 0 .. a[2] - 1
                        /\ a[1] = 0 => Cardinality(ToSet(r[2])) = a[3]
  IN IF ok THEN {s} ELSE {}
=============================================================================
