-------------------------------- MODULE Time --------------------------------
(* Clock times (seconds, microseconds), calendar dates in time zones with and  *)
(* without daylight saving, and rational numbers.  Instants are pairs          *)
(* <<day, second of day>> counted from 1970-01-01 UTC.                         *)
EXTENDS Str
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* day number of year y, month m (1..12), day d
Days(y, m, d) == LET yy == IF m <= 2 THEN y - 1 ELSE y
                     era == yy \div 400 yoe == yy - era * 400
                     doy == ((153 * (m + (IF m > 2 THEN -3 ELSE 9)) + 2) \div 5) + d - 1
                 IN era * 146097 + (yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy) - 719468
YearOf(d) == LET g == 1970 + ((d * 400) \div 146097) IN
             CHOOSE y \in g - 1 .. g + 1 : Days(y, 1, 1) <= d /\ d < Days(y + 1, 1, 1)
Wday(d) == (d + 4) % 7
\* the n-th Sunday of a month
Sunday(y, m, n) == LET f == Days(y, m, 1) IN f + ((7 - Wday(f)) % 7) + 7 * (n - 1)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Plus(t, s) == LET v == t[2] + s IN <<t[1] + (v \div 86400), v % 86400>>
\* zones: 0 UTC, 1 JST-9, 2 IST-5:30, 3 EST5EDT (2nd Sun Mar 2:00 - 1st Sun Nov 2:00), 4 AEST-10AEDT (1st Sun Oct 2:00 - 1st Sun Apr 3:00)
Std(z) == CASE z = 0 -> 0 [] z = 1 -> 32400 [] z = 2 -> 19800 [] z = 3 -> -18000 [] z = 4 -> 36000
Dst(z, t) == LET y == YearOf(t[1]) IN
  CASE z = 3 -> ~Before(t, Plus(<<Sunday(y, 3, 2), 7200>>, 18000)) /\ Before(t, Plus(<<Sunday(y, 11, 1), 7200>>, 14400))
    [] z = 4 -> Before(t, Plus(<<Sunday(y, 4, 1), 10800>>, -39600)) \/ ~Before(t, Plus(<<Sunday(y, 10, 1), 7200>>, -36000))
    [] OTHER -> FALSE
Offset(z, t) == Std(z) + (IF Dst(z, t) THEN 3600 ELSE 0)
Local(z, t) == Plus(t, Offset(z, t))
\* calendar fields <<year, mon, mday, hour, min, sec, usec, wday, yday, isdst>> of an instant
IsCal(f, z, t, us) == LET l == Local(z, t) IN
  /\ f[2] \in 1 .. 12 /\ f[3] \in 1 .. MLen(f[1], f[2])
  /\ Days(f[1], f[2], f[3]) = l[1]
  /\ f[4] \in 0 .. 23 /\ f[5] \in 0 .. 59 /\ f[6] \in 0 .. 59 /\ f[4] * 3600 + f[5] * 60 + f[6] = l[2]
  /\ f[7] = us /\ f[8] = Wday(l[1]) /\ f[9] = l[1] - Days(f[1], 1, 1) /\ f[10] = Bit(Dst(z, t))
\* local time named by (not necessarily normalised) fields
Named(f) == LET m0 == f[2] - 1 IN
            Plus(<<Days(f[1] + (m0 \div 12), (m0 % 12) + 1, 1) + f[3] - 1, 0>>, f[4] * 3600 + f[5] * 60 + f[6])
\* instants that local time can stand for; in the hour skipped in spring either reading of it
Readings(z, l) == LET c == {Plus(l, -o) : o \in {Std(z)} \cup (IF z \in {3, 4} THEN {Std(z) + 3600} ELSE {})}
                      good == {t \in c : Local(z, t) = l}
                  IN IF good = {} THEN c ELSE good
\* rational arithmetic
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Red(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1
             IN <<s * (IF n < 0 THEN -(Abs(n) \div g) ELSE n \div g), Abs(d) \div g>>
\* common factors are divided out first: the numbers stay small whenever the result is
AddRat(a, b) == LET g == Gcd(a[2], b[2]) IN Red(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
MulRat(a, b) == LET x == Red(a[1], b[2]) y == Red(b[1], a[2]) IN <<x[1] * y[1], x[2] * y[2]>>
Rat(op, a, b) == CASE op = 0 -> AddRat(a, b)
                   [] op = 1 -> AddRat(a, <<-b[1], b[2]>>)
                   [] op = 2 -> MulRat(a, b)
                   [] op = 3 -> MulRat(a, Red(b[2], b[1]))
                   [] op = 4 -> a
Carry(s, u) == <<s + (u \div 1000000), u % 1000000>>
TimeS0(h) == 0
TimeStep(s, e) ==
  LET a == e.a r == e.r
      ok == /\ e.x = 0
            /\ CASE e.op = "sum" -> <<r[1], r[2]>> = Carry(a[1] + a[3], a[2] + a[4]) /\ <<r[3], r[4]>> = <<r[1], r[2]>>
                 [] e.op = "diff" -> <<r[1], r[2]>> = Carry(a[1] - a[3], a[2] - a[4]) /\ <<r[3], r[4]>> = <<r[1], r[2]>>
                 [] e.op = "less" -> r = <<Bit(Before(<<a[1], a[2]>>, <<a[3], a[4]>>))>>
                 [] e.op = "dbl" -> r = <<a[1], a[2]>>
                 [] e.op = "now" -> r = (IF a[3] = 0 THEN <<a[1], a[2]>> ELSE <<0, 0>>)
                 [] e.op = "cal" -> IsCal(SubSeq(r, 1, 10), a[1], <<a[2], a[3]>>, a[4]) /\ SubSeq(r, 11, 13) = <<a[2], a[3], a[4]>>
                 [] e.op = "named" -> LET t == <<r[11], r[12]>> IN
                       t \in Readings(a[1], Named(Tail(a))) /\ IsCal(SubSeq(r, 1, 10), a[1], t, a[8]) /\ r[13] = a[8]
                 [] e.op = "ratio" -> LET x == Red(a[2], a[3]) y == Red(a[4], a[5]) v == Rat(a[1], x, IF a[6] = 1 THEN x ELSE y) IN
                       <<r[1], r[2]>> = v /\ r[3] = Bit(x = y)
  IN IF ok THEN {s} ELSE {}
=============================================================================
