------------------------------- MODULE Bytes --------------------------------
(* Byte order conversion of numbers and blocks, and IPv4 addresses and their  *)
(* dotted form.  A number is given by its base-256 digits, lowest first.      *)
EXTENDS Str
Dot == 46
IsDec(c) == c >= 48 /\ c <= 57
RECURSIVE DecOf(_)
DecOf(n) == IF n < 10 THEN <<48 + n>> ELSE DecOf(n \div 10) \o <<48 + (n % 10)>>
Dotted(q) == DecOf(q[1]) \o <<Dot>> \o DecOf(q[2]) \o <<Dot>> \o DecOf(q[3]) \o <<Dot>> \o DecOf(q[4])
RECURSIVE Parts(_)
Parts(t) == LET p == MinOr({i \in 1 .. Len(t) : t[i] = Dot}, 0)
            IN IF p = 0 THEN <<t>> ELSE <<SubSeq(t, 1, p - 1)>> \o Parts(SubSeq(t, p + 1, Len(t)))
AllDec(t) == t # <<>> /\ \A i \in 1 .. Len(t) : IsDec(t[i])
\* the value of a number, never above 256
Small(t) == FoldLeft(LAMBDA v, c : IF v > 255 THEN 256 ELSE LET n == v * 10 + c - 48 IN IF n > 255 THEN 256 ELSE n, 0, t)
Signed(t) == AllDec(t) \/ (t # <<>> /\ t[1] = 45 /\ AllDec(Tail(t)))
None == <<255, 255, 255, 255>>
\* four plain numbers
Quad(t) == LET p == Parts(t) IN Len(p) = 4 /\ \A i \in 1 .. 4 : AllDec(p[i])
QuadOf(t) == LET p == Parts(t) q == [i \in 1 .. 4 |-> Small(p[i])] IN IF \E i \in 1 .. 4 : q[i] > 255 THEN None ELSE q
\* certainly no address: fewer than four parts, or one of the first four does not begin as a number at all, or is negative
NoAddress(t) == LET p == Parts(t) IN
   \/ Len(p) < 4
   \/ \E i \in 1 .. 4 : \/ p[i] = <<>>
                        \/ p[i][1] \notin (48 .. 57) \cup {43, 45, 32, 9, 10, 11, 12, 13}
   \/ (\A i \in 1 .. 4 : Signed(p[i])) /\ (\E i \in 1 .. 4 : p[i][1] = 45 /\ Small(Tail(p[i])) > 0)
   \/ \E i \in 1 .. 3 : AllDec(p[i]) /\ Small(p[i]) > 255
   \/ \E i \in 1 .. 3 : \E j \in 1 .. Len(p[i]) - 1 : IsDec(p[i][j]) /\ ~IsDec(p[i][j + 1])
RECURSIVE QLess(_, _)
QLess(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE QLess(Tail(a), Tail(b))
BytesS0(h) == 0
BytesStep(s, e) ==
  LET a == e.a r == e.r
      ok == e.x = 0 /\
   CASE e.op = "int" -> LET v == Reverse(a[1]) IN r = <<a[1], v, a[1], v, v>>
     [] e.op = "raw" -> LET v == Reverse(a[1]) IN r = <<v, v, v \o <<77, 77>> >>
     [] e.op = "host" -> r = <<r[5], 1 - r[5], r[5], 1 - r[5], r[5]>>
     [] e.op = "quad" -> r = <<Dotted(a[1]), 1>>
     [] e.op = "parse" -> IF Quad(a[1]) THEN r = <<Dotted(QuadOf(a[1])), Bit(QuadOf(a[1]) = None)>>
                          ELSE IF NoAddress(a[1]) THEN r = <<Dotted(None), 1>> ELSE TRUE
     [] e.op = "cmp" -> r = <<Bit(QLess(a[1], a[2])), Bit(a[1] = a[2]), Bit(a[1] # a[2])>>
     [] e.op = "const" -> r = <<Dotted(<<0, 0, 0, 0>>), Dotted(<<0, 0, 0, 0>>), Dotted(None), Dotted(<<127, 0, 0, 1>>), Dotted(None)>>
  IN IF ok THEN {s} ELSE {}
=============================================================================
